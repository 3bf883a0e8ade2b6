use vharness::e2e::*;
fn main(){ let a:Vec<String>=std::env::args().collect(); let t=std::fs::read_to_string(&a[1]).unwrap();
let dir= if a.get(3).map(|s|s=="back").unwrap_or(false){louis::Direction::Backward}else{louis::Direction::Forward};
match compile(&t,dir){Ok(tr)=>{println!("{:?}",translate(&tr,&a[2],&[]).map(|o|show(&o)))},Err(e)=>println!("{e:?}")}}
