use crate::report::Prop;
pub mod amm;
#[cfg(feature = "work")]
pub mod cost;
pub mod create;
pub mod custody;
pub mod fair;
pub mod linear;
pub mod robust;
pub mod value;

pub fn all() -> Vec<Prop> {
    if cfg!(feature = "production") {
        return create::production();
    }
    let mut v = vec![];
    #[cfg(feature = "work")]
    v.extend(cost::props());
    v.extend(custody::props());
    v.extend(create::props());
    v.extend(linear::props());
    v.extend(amm::props());
    v.extend(robust::props());
    v.extend(fair::props());
    v.extend(value::props());
    v
}
