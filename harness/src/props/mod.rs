//! The checks, one property each.

use crate::runner::Property;

pub mod boundary;
pub mod decode;
pub mod documents;
pub mod errors;
pub mod flow;
pub mod history;
pub mod hostile;
pub mod offers;
pub mod requests;
pub mod responses;
pub mod token;
pub mod validation;

pub fn all() -> Vec<Property> {
    let mut all = vec![];
    all.extend(token::properties());
    all.extend(boundary::properties());
    all.extend(offers::properties());
    all.extend(requests::properties());
    all.extend(responses::properties());
    all.extend(errors::properties());
    all.extend(documents::properties());
    all.extend(decode::properties());
    all.extend(hostile::properties());
    all.extend(history::properties());
    all.extend(flow::properties());
    all.extend(validation::properties());
    all.sort_by_key(|p| p.id);
    all
}
