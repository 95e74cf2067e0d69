//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/bits.vx
//@include lib/util.vx
//@include lib/monoid.vx
//@include lib/segtree_spec.vx
//@include lib/segtree.vx
//@include lib/search_spec.vx
//@include lib/pred_ref.vx
//@include lib/segtree_search.vx
}
