#[allow(unused_macros)]
macro_rules! println { ($($t:tt)*) => { vstd::println!($($t)*) }; }
#[allow(unused_macros)]
macro_rules! print { ($($t:tt)*) => { vstd::print!($($t)*) }; }
#[allow(unused_macros)]
macro_rules! eprintln { ($($t:tt)*) => { vstd::eprintln!($($t)*) }; }
#[allow(unused_macros)]
macro_rules! eprint { ($($t:tt)*) => { vstd::eprint!($($t)*) }; }
