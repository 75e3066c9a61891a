mod bases;
mod c14;
mod c15;
mod ctx;
#[macro_use]
mod dump;
mod entries;
mod guided;
mod ev;
mod grammar;
#[cfg_attr(not(feature = "laws"), allow(dead_code))]
mod laws;
mod lex;
mod mon;
mod pool;
mod props;
mod rec;
mod render;
mod rng;
mod sized;
mod steps;
mod work;

fn main() {
    ctx::main()
}
