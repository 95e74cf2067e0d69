#![feature(allocator_api)]
//@include lib/head.vx
//@include lib/heap_std.vx
//@include lib/min_heap.vx
}
