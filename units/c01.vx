//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/union_find.vx
}
