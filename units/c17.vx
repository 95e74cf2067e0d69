//@include lib/head.vx
//@include lib/stdspec.vx
//@include lib/divides.vx
//@include lib/integral.vx
//@include lib/integral_inst.vx
//@include lib/number_theory.vx
//@include lib/crt.vx
}
