pub mod auth;
pub mod calls;
pub mod consts;
pub mod conv;
pub mod convtab;
pub mod eval;
pub mod http;
pub mod index;
mod ingest;
mod ops;
mod serve;
mod disk;
pub mod keys;
mod kv;
pub mod times;
pub mod meta;
pub mod names;
pub mod perm;
pub mod plan;
mod qplan;
pub mod route;
pub mod rbac;
pub mod store;
pub mod tab;
mod validate;
pub mod wire;

use crate::report::Ck;

pub struct Rule {
    pub id: &'static str,
    pub run: fn(&mut Ck),
    pub note: &'static str,
}

pub const RULES: &[Rule] = &[
    Rule { id: "C01", run: rbac::check, note: "" },
    Rule { id: "C02", run: convtab::check_api, note: "" },
    Rule { id: "C03", run: convtab::check_types, note: "" },
    Rule { id: "C04", run: times::check, note: "" },
    Rule { id: "C06", run: names::check, note: "" },
    Rule { id: "C07", run: wire::check, note: "" },
    Rule { id: "C08", run: meta::check_update, note: "" },
    Rule { id: "C09", run: meta::check_create, note: "" },
    Rule { id: "C10", run: meta::check_tx, note: "" },
    Rule { id: "C11", run: index::check, note: "" },
    Rule { id: "C12", run: keys::check, note: "" },
    Rule { id: "C13", run: store::check, note: "" },
    Rule { id: "C14", run: perm::check, note: "" },
    Rule { id: "C15", run: auth::check, note: "" },
    Rule { id: "C16", run: route::check, note: "" },
    Rule { id: "C17", run: qplan::check, note: "" },
    Rule { id: "C18", run: validate::check, note: "" },
    Rule { id: "C19", run: ingest::check, note: "" },
    Rule { id: "C20", run: serve::check, note: "" },
    Rule { id: "C21", run: ops::run, note: "" },
    Rule { id: "C22", run: disk::check, note: "" },
    Rule { id: "C23", run: disk::check_reads, note: "" },
    Rule { id: "C25", run: kv::check, note: "" },
    Rule { id: "C24", run: disk::check_backup, note: "" },
    Rule { id: "C05", run: http::check, note: "" },
];
