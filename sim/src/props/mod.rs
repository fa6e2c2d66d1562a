pub mod bind;
pub mod client;
pub mod convert;
pub mod encode;
pub mod fleet;
pub mod hiding;
pub mod history;
pub mod hostile;
pub mod nizk;
pub mod poseidon;
pub mod reader;
pub mod snark;
pub mod world;
use crate::runner::Check;

pub fn all() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(world::C01),
        Box::new(nizk::C02),
        Box::new(nizk::C03),
        Box::new(nizk::C04),
        Box::new(bind::C05),
        Box::new(hiding::C06),
        Box::new(history::C07),
        Box::new(reader::C08),
        Box::new(reader::C09),
        Box::new(reader::C10),
        Box::new(convert::C11),
        Box::new(convert::C12),
        Box::new(encode::C13),
        Box::new(fleet::C14),
        Box::new(snark::C15),
        Box::new(snark::C16),
        Box::new(poseidon::C17),
        Box::new(hostile::C18),
        Box::new(client::C19),
        Box::new(client::C22),
    ]
}
