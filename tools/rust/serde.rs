pub trait Deserialize {}
pub trait Serialize {}
