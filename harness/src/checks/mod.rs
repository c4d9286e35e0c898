pub mod common;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod p21;
pub mod p22;
pub mod p25;
pub mod store;

use crate::engine::Check;
pub fn all() -> Vec<&'static Check> {
    vec![&p01::CHECK, &p02::CHECK, &p03::CHECK, &p04::CHECK, &p05::CHECK, &p06::CHECK, &p07::CHECK, &p08::CHECK, &p09::CHECK, &p10::CHECK, &p11::CHECK, &p12::CHECK, &p13::CHECK, &p14::CHECK, &p16::CHECK, &p17::CHECK, &p18::CHECK, &p19::CHECK, &p20::CHECK, &p21::CHECK, &p22::CHECK, &p25::CHECK]
}
