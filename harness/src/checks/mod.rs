use crate::engine::Check;

mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c08;
mod c12;
mod c15;
mod c16;
mod c18;
mod c22;
mod c23;
mod c25;
mod c28;
mod c29;
mod c30;
mod c31;
mod c33;
mod c34;

pub fn all() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(c01::C01),
        Box::new(c02::C02),
        Box::new(c03::C03),
        Box::new(c03::C04),
        Box::new(c05::C05),
        Box::new(c06::C06),
        Box::new(c06::C07),
        Box::new(c08::C08),
        Box::new(c08::C09),
        Box::new(c05::C10),
        Box::new(c05::C11),
        Box::new(c12::C12),
        Box::new(c12::C13),
        Box::new(c12::C14),
        Box::new(c15::C15),
        Box::new(c16::C16),
        Box::new(c16::C17),
        Box::new(c18::C18),
        Box::new(c18::C19),
        Box::new(c18::C20),
        Box::new(c18::C21),
        Box::new(c22::C22),
        Box::new(c23::C23),
        Box::new(c23::C24),
        Box::new(c25::C25),
        Box::new(c23::C26),
        Box::new(c28::C28),
        Box::new(c29::C29),
        Box::new(c30::C30),
        Box::new(c31::C31),
        Box::new(c33::C33),
        Box::new(c34::C34),
    ]
}
