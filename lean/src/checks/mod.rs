use crate::engine::Check;

mod c32;

pub fn all() -> Vec<Box<dyn Check>> { vec![Box::new(c32::C32)] }
