//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/lowbit.vx
//@include lib/elem.vx
//@include lib/elem_inst.vx
//@include lib/fenwick.vx
}
