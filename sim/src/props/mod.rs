use crate::driver::Prop;
pub mod rpcw;
pub mod edit;
mod style;
mod cfgw;
mod reads;
mod record;
mod view;
mod files;
mod plugw;
mod replica;
mod wild;
mod selftest;
mod lsp;
mod trace;
pub fn all() -> Vec<Prop> {
    vec![rpcw::C01, rpcw::C02, rpcw::C03, rpcw::C04, view::C05, edit::C06, edit::C07, edit::C08, reads::C09, files::C14, files::C15, files::C16, files::C17, plugw::C10, plugw::C11, plugw::C12, style::C13, cfgw::C18, record::C21, replica::C22, view::C19, view::C20, wild::C26, wild::C27, trace::C24, lsp::C25, selftest::PROP]
}
