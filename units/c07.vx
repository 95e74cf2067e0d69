//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/bits.vx
//@include lib/util.vx
//@include lib/monoid.vx
//@include lib/segtree_spec.vx
//@include lib/lazy_spec.vx
//@include lib/lazy.vx
//@include lib/search_spec.vx
//@include lib/lazy_search.vx
}
