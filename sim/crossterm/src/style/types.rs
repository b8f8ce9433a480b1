pub use self::{attribute::Attribute, color::Color, colored::Colored, colors::Colors};

mod attribute;
mod color;
mod colored;
mod colors;
