use rust_cp::misc::recursive_function::*;
#[inline(never)]
fn mk(start:u32)->impl FnMut(&mut dyn Callable<u32,u32>,u32)->u32 {
  let mut cnt=start;
  move |f:&mut dyn Callable<u32,u32>, n:u32| { cnt+=1; if n>0 { f.call(n-1);} cnt }
}
#[inline(never)]
fn run(c: &mut dyn Callable<u32,u32>, n:u32)->u32 { c.call(n) }
fn main(){
  let n: u32 = std::env::args().nth(1).map(|x|x.parse().unwrap()).unwrap_or(5);
  let mut f=RecursiveFunction::new(mk(0));
  println!("{}", run(&mut f,n));
  let mut b: Box<dyn Callable<u32,u32>> = Box::new(RecursiveFunction::new(mk(0)));
  println!("{}", std::hint::black_box(&mut b).call(n));
  // visited list by value
  let mut seen: Vec<u32> = vec![];
  let mut f=RecursiveFunction::new(move |f:&mut dyn Callable<u32,usize>, n:u32| { let l=seen.len(); seen.push(n); if n>0 { f.call(n-1);} seen.len()-l });
  println!("{}", std::hint::black_box(&mut f as &mut dyn Callable<u32,usize>).call(n));
}
