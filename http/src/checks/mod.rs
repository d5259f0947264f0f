use crate::engine::Check;

mod c27;

pub fn all() -> Vec<Box<dyn Check>> { vec![Box::new(c27::C27)] }
