use crate::engine::Spec;
pub mod generic;
pub mod options;
pub mod errors;
pub mod state;
pub mod tables;
pub mod macros;
pub mod syntax;
pub mod layout;
pub mod spacing;
pub mod cli;
pub mod features;
pub mod frontends;
mod values;
pub mod text;
pub mod structure;
pub mod growth;
pub mod symbols;
pub mod renderings;
pub mod wasm;
pub mod published;
pub fn specs() -> Vec<Spec> {
    let mut v = generic::specs();
    v.extend(options::specs());
    v.extend(errors::specs());
    v.extend(state::specs());
    v.extend(tables::specs());
    v.extend(macros::specs());
    v.extend(syntax::specs());
    v.extend(layout::specs());
    v.extend(spacing::specs());
    v.extend(cli::specs());
    v.extend(features::specs());
    v.extend(frontends::specs());
    v.extend(values::specs());
    v.extend(text::specs());
    v.extend(structure::specs());
    v.extend(growth::specs());
    v.extend(symbols::specs());
    v.extend(renderings::specs());
    v.extend(wasm::specs());
    v.extend(published::specs());
    v
}
