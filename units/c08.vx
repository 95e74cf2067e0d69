//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/util.vx
//@include lib/sparse_table.vx
}
