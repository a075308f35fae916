use crate::engine::Check;
pub mod cache;
pub mod conf;
pub mod login;
pub mod extract;
pub mod faults;
pub mod git;
pub mod hostile;
pub mod linker;
pub mod lock;
pub mod manifest;
pub mod net;
pub mod proxy;
pub mod resolve;
pub mod scripts;
pub mod select;
pub mod spec;
pub mod shims;
pub mod view;

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(cache::checks());
    v.extend(conf::checks());
    v.extend(login::checks());
    v.extend(extract::checks());
    v.extend(faults::checks());
    v.extend(git::checks());
    v.extend(hostile::checks());
    v.extend(manifest::checks());
    v.extend(net::checks());
    v.extend(proxy::checks());
    v.extend(resolve::checks());
    v.extend(lock::checks());
    v.extend(linker::checks());
    v.extend(scripts::checks());
    v.extend(select::checks());
    v.extend(spec::checks());
    v.extend(view::checks());
    v.extend(shims::checks());
    v
}
