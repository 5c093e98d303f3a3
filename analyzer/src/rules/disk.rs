//! C22: what the storage does to its files and under its locks, case by case.
use super::calls::*;
use super::tab::*;
use crate::model::*;
use crate::report::*;

fn lock(n: &str, v: &str) -> String {
    format!("Lock{{name: {n:?}, value: {v}}}")
}
fn field(n: &str, t: &str) -> String {
    format!("arrow2::datatypes::Field{{name: {n:?}, data_type: arrow2::datatypes::DataType::{t}, is_nullable: true}}")
}
const FIELDS: &[(&str, &str)] = &[("k", "Int64"), ("a", "Utf8"), ("b", "Boolean"), ("c", "Int8")];
fn opts(index: usize) -> String {
    format!("storage::table::Options{{index_cols: {index}, is_replacing: false, levels: 3, l0_max_parts: 1, l1_max_size_bytes: 100, level_size_multiplier: 10, max_log_length_bytes: 100, merge_max_l1_part_size_bytes: 40, merge_part_size_multiplier: 2, merge_data_page_size_limit_bytes: Some(70), merge_row_group_values_limit: 71, merge_array_size: mas, merge_chunk_size: mcs, merge_array_page_size: 72, merge_max_page_size: 73}}")
}
fn part(id: usize, size: usize) -> String {
    format!("storage::table::Part{{id: {id}, size_bytes: {size}, values: 1, min: [mn{id}], max: [mx{id}]}}")
}
fn partk(id: usize, min: usize, max: usize) -> String {
    part(id, 10 * id).replace(&format!("[mn{id}]"), &format!("[storage::KeyValue::Int64({min})]")).replace(&format!("[mx{id}]"), &format!("[storage::KeyValue::Int64({max})]"))
}
fn level(id: usize, parts: &[String]) -> String {
    format!("storage::table::Level{{part_id: {id}, parts: [{}]}}", parts.join(", "))
}
fn md(logged: usize, levels: &[String], index: usize) -> String {
    let fs = FIELDS.iter().map(|f| field(f.0, f.1)).collect::<Vec<_>>().join(", ");
    format!("storage::table::Metadata{{version: 0, log_id: 7, table_name: \"t\", schema: arrow2::datatypes::Schema{{fields: [{fs}], metadata: sm}}, stats: storage::Stats{{resident_bytes: 0, on_disk_bytes: 0, logged_bytes: {logged}, written_bytes: 0, read_bytes: 0, space_amp: 0, write_amp: 0}}, levels: [{}], opts: {}}}", levels.join(", "), opts(index))
}
fn mem(rows: &[&[&str]]) -> String {
    let cols = (0..FIELDS.len()).map(|c| format!("storage::memtable::Column{{values: [{}], dt: d{c}}}", rows.iter().map(|r| r[c]).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ");
    format!("storage::memtable::Memtable{{cols: [{cols}]}}")
}
fn db(md: &str, mem: &str) -> String {
    let t = format!("storage::table::Table{{name: \"t\", memtable: {}, metadata: {}, log: {}, cas: {}}}", lock("memtable", mem), lock("metadata", md), lock("log", "log7"), lock("cas", "cas0"));
    format!("storage::db::OptiDBImpl{{opts: o, tables: {}, global_lock: {}, backup_lock: {}, compactor_outbox: ob, path: dir, fs: fs}}", lock("tables", &format!("[{t}]")), lock("global_lock", "g0"), lock("backup_lock", "b0"))
}
fn world() -> World {
    let mut w = World::new(&[]);
    w.locks = true;
    w.also = vec!["write_all", "open", "create", "rename", "copy", "remove_file", "remove_dir_all", "create_dir_all", "create_dir", "read_exact", "read", "set_len", "seek", "send", "read_dir", "finish", "serialize"];
    w.shut = vec!["open", "close", "try_remove_file", "write_level0", "hash_crc32", "serialize_md", "deserialize_md"];
    w.pure_ = vec![("get_mut", "@"), ("with_capacity", "[]"), ("elapsed", "t1"), ("len(rec1)", "40"), ("len(mdb)", "60"), ("try_into(DType::String)", "Ok(arrow2::datatypes::DataType::Utf8)"), ("try_into(DType::Boolean)", "Ok(arrow2::datatypes::DataType::Boolean)"), ("try_into(DType::Int64)", "Ok(arrow2::datatypes::DataType::Int64)"), ("now", "t0")];
    w.with("serialize", "Ok(rec#)").with("serialize_md", "Ok(mdb)").with("write_level0", &format!("Ok({})", part(1, 77)))
}


fn t(ck: &Ck, s: &str) -> String {
    let mut it = fresh(ck);
    it.a.fold = true;
    let v = term(&mut it, s);
    txt(&it.a, v)
}
/// the effects of a run with the locks held at each, without the steps of builders and of encoding
fn effects(d: &Done) -> Vec<(String, Vec<String>)> {
    d.log.iter().zip(&d.held).filter(|(l, _)| !["lock ", "read ", "write ", "unlock ", ".create(", ".read(", ".write(", "serialize(", "serialize_md("].iter().any(|p| l.starts_with(p))).map(|(l, h)| (l.clone(), h.clone())).collect()
}
/// the effects are these, in this order; `a | b`: one of them
fn steps(ck: &mut Ck, kind: &str, what: &str, d: &Done, want: &[String]) {
    // opening a file to read it is part of the step that reads it
    let inner = |g: &String| g.starts_with("open(") && want.iter().any(|w| w.len() > g.len() && w.contains(g.as_str())) && !want.iter().any(|w| w.split(" | ").any(|w| w == g));
    let got: Vec<String> = effects(d).into_iter().map(|x| x.0).filter(|g| !inner(g)).collect();
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(g, w)| w.split(" | ").any(|w| g == w || w.ends_with("..") && g.starts_with(&w[..w.len() - 2])));
    let at = (d.at.0.as_str(), d.at.1);
    ck.req(kind, ok, what.to_string(), at, format!("{what}: the steps must be {}; they are {}", want.iter().map(|s| cut(s)).collect::<Vec<_>>().join(", then "), got.iter().map(|s| cut(s)).collect::<Vec<_>>().join(", then ")));
}
fn cut(s: &str) -> String {
    if s.chars().count() > 110 { format!("{}…", s.chars().take(110).collect::<String>()) } else { s.into() }
}
fn cell(ck: &mut Ck, kind: &str, what: &str, d: &Done, lock: &str, want: &str) {
    let got = d.cells.get(lock).cloned().unwrap_or_default();
    let ok = got.len() == 1 && got.contains(want);
    let at = (d.at.0.as_str(), d.at.1);
    ck.req(kind, ok, format!("{what}:{lock}"), at, format!("{what}: what {lock} guards must be {want} afterwards, it is {got:?}"));
}
fn out(ck: &mut Ck, kind: &str, what: &str, d: &Done, ok: bool) {
    let r = !d.out.is_empty() && d.out.iter().all(|o| o.starts_with(if ok { "Ok(" } else { "Err(" }));
    let at = (d.at.0.as_str(), d.at.1);
    ck.req(kind, r, format!("{what}:result"), at, format!("{what} must {}, ends with {:?}", if ok { "succeed" } else { "fail" }, d.out));
}
/// every effect that starts with one of `which` happens under these locks, none of which is let go before the last of them
fn under(ck: &mut Ck, kind: &str, what: &str, d: &Done, which: &[&str], locks: &[&str]) {
    let at = (d.at.0.as_str(), d.at.1);
    let hit: Vec<usize> = d.log.iter().enumerate().filter(|(_, l)| which.iter().any(|w| l.starts_with(w))).map(|x| x.0).collect();
    for l in locks {
        let held = hit.iter().all(|i| d.held[*i].iter().any(|h| h == l));
        let whole = match (hit.first(), hit.last()) {
            (Some(a), Some(b)) => !d.log[*a..*b].iter().any(|x| *x == format!("unlock {l}")),
            _ => false,
        };
        ck.req(kind, held && whole, format!("{what}:{l}"), at, format!("{what}: {} must happen under one hold of the lock {l}; the locks held are {:?}", which.join(", "), hit.iter().map(|i| d.held[*i].join(" ")).collect::<Vec<_>>()));
    }
}

const ROW: &str = "[storage::NamedValue{name: \"k\", value: storage::Value::Int64(Some(5))}, storage::NamedValue{name: \"c\", value: storage::Value::Int8(Some(3))}, storage::NamedValue{name: \"b\", value: storage::Value::Boolean(Some(true))}]";
const STORED: &[&str] = &["storage::Value::Int64(Some(5))", "storage::Value::Null", "storage::Value::Boolean(Some(true))", "storage::Value::Int8(Some(3))"];
const LOG7: &str = "log7.write_all(concat([to_le_bytes(hash_crc32(rec1)), to_le_bytes(40), rec1]))";
fn file(s: &str) -> String {
    format!("join(dir, \"tables/t/{s}\")")
}
fn flushed(logged: usize) -> String {
    let _ = logged;
    md(0, &[level(2, &[part(1, 77)]), level(4, &[])], 1).replace("log_id: 7", "log_id: 8").replace("written_bytes: 0", "written_bytes: 77")
}
fn base(logged: usize) -> String {
    md(logged, &[level(1, &[]), level(4, &[])], 1)
}
/// the steps of a flush of log 7 into part 1
fn flush_steps() -> Vec<String> {
    let p = file("levels/0/1.parquet");
    let l = file(&format!("{:016}.log", 8));
    let tmp = format!("with_extension({}, \"tmp\")", file("metadata"));
    vec![
        format!("fs.open({p})"),
        "write_level0(..".into(),
        format!("fs.close({p})"),
        format!("open{{create read truncate write}}({l}) | open{{create truncate write}}({l}) | create({l})"),
        format!("create({tmp})"),
        format!("create({tmp}).write_all(concat([to_le_bytes(hash_crc32(mdb)), to_le_bytes(60), mdb]))"),
        format!("rename({tmp}, {})", file("metadata")),
        format!("fs.try_remove_file({})", file(&format!("{:016}.log", 7))),
    ]
}

fn insert(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::insert") else { return };
    let one = t(ck, &mem(&[STORED]));
    let none = t(ck, &mem(&[]));
    let k = "storage-insert";
    // a row is logged, then stored
    let d = world().run(ck, f, Some(&db(&base(0), &mem(&[]))), &["\"t\"", ROW]);
    dump(&d);
    out(ck, k, "insert", &d, true);
    steps(ck, k, "insert", &d, &[LOG7.into()]);
    under(ck, k, "insert", &d, &["log7.write_all", "lock memtable", "unlock memtable"], &["metadata", "global_lock"]);
    under(ck, k, "insert log", &d, &["log7.write_all"], &["log"]);
    cell(ck, k, "insert", &d, "memtable", &one);
    cell(ck, k, "insert", &d, "metadata", &t(ck, &base(52)));
    let rec = "serialize(LogOp::Insert([KeyValue::Int64(5)], [Value::Null, Value::Boolean(Some(true)), Value::Int8(Some(3))]))";
    ck.req(k, d.log.iter().filter(|l| l.starts_with("serialize(")).all(|l| l == rec), "insert:record", (d.at.0.as_str(), d.at.1), format!("the row must be logged as {rec}; logged is {:?}", d.log.iter().filter(|l| l.starts_with("serialize(")).collect::<Vec<_>>()));
    // what cannot be logged is not stored
    let d = world().with("log7.write_all", "Err(io)").run(ck, f, Some(&db(&base(0), &mem(&[]))), &["\"t\"", ROW]);
    out(ck, k, "insert that cannot be logged", &d, false);
    let kept = d.cells.get("memtable").map_or(true, |c| c.len() == 1 && c.contains(&none));
    ck.req(k, kept, "insert:unlogged", (d.at.0.as_str(), d.at.1), format!("a row that could not be logged must not be stored; stored is {:?}", d.cells.get("memtable")));
    // a log over its limit is flushed
    let d = world().run(ck, f, Some(&db(&base(60), &mem(&[]))), &["\"t\"", ROW]);
    out(ck, k, "insert that fills the log", &d, true);
    let mut w = vec![LOG7.to_string()];
    w.extend(flush_steps());
    steps(ck, k, "insert that fills the log", &d, &w);
    cell(ck, k, "insert that fills the log", &d, "memtable", &none);
    cell(ck, k, "insert that fills the log", &d, "metadata", &t(ck, &flushed(0)));
    let l8 = d.cells.get("log").map_or(false, |c| c.iter().any(|x| x.contains("/0000000000000008.log")));
    ck.req(k, l8, "insert:newlog", (d.at.0.as_str(), d.at.1), format!("after the flush rows must be logged to the new log; log is {:?}", d.cells.get("log")));
    // exactly at the limit: not yet
    let d = world().run(ck, f, Some(&db(&base(48), &mem(&[]))), &["\"t\"", ROW]);
    steps(ck, k, "insert that reaches the limit", &d, &[LOG7.into()]);
}

const VALS: &[(&str, &str)] = &[("Int8", "1"), ("Int16", "1"), ("Int32", "1"), ("Int64", "1"), ("Boolean", "true"), ("Decimal", "1"), ("Timestamp", "1"), ("String", "\"s\"")];
const TYPES: &[(&str, &str)] = &[("Int8", "Int8"), ("Int16", "Int16"), ("Int32", "Int32"), ("Int64", "Int64"), ("Boolean", "Boolean"), ("Decimal(28, 16)", "Decimal"), ("Timestamp(arrow2::datatypes::TimeUnit::Millisecond, None)", "Timestamp"), ("Utf8", "String")];

/// which value a column takes
fn types(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::insert") else { return };
    let k = "storage-types";
    for (dt, takes) in TYPES {
        let table = base(0).replacen("data_type: arrow2::datatypes::DataType::Utf8", &format!("data_type: arrow2::datatypes::DataType::{dt}"), 1);
        for (v, x) in VALS {
            let row = format!("[storage::NamedValue{{name: \"k\", value: storage::Value::Int64(Some(5))}}, storage::NamedValue{{name: \"a\", value: storage::Value::{v}(Some({x}))}}]");
            let d = world().run(ck, f, Some(&db(&table, &mem(&[]))), &["\"t\"", &row]);
            let what = format!("insert of {v} into a column of {dt}");
            out(ck, k, &what, &d, v == takes);
            if v == takes {
                cell(ck, k, &what, &d, "memtable", &t(ck, &mem(&[&["storage::Value::Int64(Some(5))", &format!("storage::Value::{v}(Some({x}))"), "storage::Value::Null", "storage::Value::Null"]])));
            } else {
                steps(ck, k, &what, &d, &[]);
            }
        }
    }
    for (what, table, col) in [("insert into an unknown column", "t", "zz"), ("insert into an unknown table", "u", "k")] {
        let row = format!("[storage::NamedValue{{name: \"k\", value: storage::Value::Int64(Some(5))}}, storage::NamedValue{{name: {col:?}, value: storage::Value::Int64(Some(5))}}]");
        let d = world().run(ck, f, Some(&db(&base(0), &mem(&[]))), &[&format!("{table:?}"), &row]);
        out(ck, k, what, &d, false);
        steps(ck, k, what, &d, &[]);
    }
}

fn flush(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::flush") else { return };
    let k = "storage-flush";
    let full = mem(&[STORED]);
    let own = db(&base(60), &full);
    let d = world().run(ck, f, Some(&own), &["\"t\""]);
    out(ck, k, "flush", &d, true);
    let w = flush_steps();
    steps(ck, k, "flush", &d, &w);
    under(ck, k, "flush", &d, &["fs.open", "write_level0", "rename", "fs.try_remove_file"], &["metadata", "memtable", "global_lock"]);
    // the part is written from the table as it is
    let (m, r) = (t(ck, &base(60)), t(ck, &full));
    let part = format!("write_level0({m}, {r}, dir)");
    ck.req(k, d.log.iter().any(|l| *l == part), "flush:part", (d.at.0.as_str(), d.at.1), format!("the rows in memory must be written to the part the metadata counts next; written is {:?}", d.log.iter().filter(|l| l.starts_with("write_level0")).collect::<Vec<_>>()));
    let named = format!("serialize_md({})", t(ck, &flushed(0)));
    ck.req(k, d.log.iter().filter(|l| l.starts_with("serialize_md")).all(|l| *l == named), "flush:metadata", (d.at.0.as_str(), d.at.1), format!("the metadata written must name the new part and the next log: {named}; written is {:?}", d.log.iter().filter(|l| l.starts_with("serialize_md")).collect::<Vec<_>>()));
    cell(ck, k, "flush", &d, "memtable", &t(ck, &mem(&[])));
    cell(ck, k, "flush", &d, "metadata", &t(ck, &flushed(0)));
    let l8 = d.cells.get("log").map_or(false, |c| c.iter().all(|x| x.contains("/0000000000000008.log")));
    ck.req(k, l8, "flush:newlog", (d.at.0.as_str(), d.at.1), format!("after a flush rows must be logged to the new log; log is {:?}", d.cells.get("log")));
    // a flush that stops anywhere leaves the rows in memory and the metadata as they were
    let got: Vec<String> = effects(&d).into_iter().map(|x| x.0).collect();
    for (i, g) in got.iter().enumerate() {
        let what = format!("flush that fails at step {} ({})", i + 1, cut(g).split('(').next().unwrap_or(""));
        let mut wd = world();
        wd.answers.insert(0, (g.clone(), "Err(io)".into()));
        let e = wd.run(ck, f, Some(&own), &["\"t\""]);
        if g.starts_with("fs.try_remove_file") {
            out(ck, k, &what, &e, true);
            cell(ck, k, &what, &e, "metadata", &t(ck, &flushed(0)));
            continue;
        }
        out(ck, k, &what, &e, false);
        cell(ck, k, &what, &e, "memtable", &r);
        cell(ck, k, &what, &e, "metadata", &m);
        let rest: Vec<String> = effects(&e).into_iter().map(|x| x.0).collect();
        let on = rest.iter().skip(i + 1).any(|x| x.starts_with("rename") || x.starts_with("fs.try_remove"));
        ck.req(k, !on, format!("{what}:on"), (e.at.0.as_str(), e.at.1), format!("{what}: nothing may be renamed or removed afterwards; the steps are {:?}", rest.iter().map(|s| cut(s)).collect::<Vec<_>>()));
        // a part that was opened is closed
        let open = rest.iter().filter(|x| x.starts_with("fs.open")).count() - usize::from(g.starts_with("fs.open"));
        let close = rest.iter().filter(|x| x.starts_with("fs.close")).count();
        ck.req(k, open == close, format!("{what}:open"), (e.at.0.as_str(), e.at.1), format!("{what}: the part is opened {open} times and closed {close} times"));
    }
    // nothing in memory: nothing to do
    let d = world().run(ck, f, Some(&db(&base(0), &mem(&[]))), &["\"t\""]);
    out(ck, k, "flush of nothing", &d, true);
    steps(ck, k, "flush of nothing", &d, &[]);
    let d = world().run(ck, f, Some(&own), &["\"u\""]);
    out(ck, k, "flush of an unknown table", &d, false);
    steps(ck, k, "flush of an unknown table", &d, &[]);
}

fn md_steps(p: &str) -> Vec<String> {
    let tmp = format!("with_extension({p}, \"tmp\")");
    vec![format!("create({tmp})"), format!("create({tmp}).write_all(concat([to_le_bytes(hash_crc32(mdb)), to_le_bytes(60), mdb]))"), format!("rename({tmp}, {p})")]
}
fn fields(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::add_field") else { return };
    let k = "storage-field";
    let before = mem(&[STORED, STORED]);
    let own = db(&base(9), &before);
    for (dt, adt) in [("String", "Utf8"), ("Boolean", "Boolean"), ("Int64", "Int64")] {
        for n in ["true", "false"] {
            let d = world().run(ck, f, Some(&own), &["\"t\"", "\"n\"", &format!("common::types::DType::{dt}"), n]);
            let what = format!("add_field {dt} {n}");
            dump(&d);
            out(ck, k, &what, &d, true);
            steps(ck, k, &what, &d, &md_steps(&file("metadata")));
            let new = base(9).replace("], metadata: sm", &format!(", arrow2::datatypes::Field{{name: \"n\", data_type: arrow2::datatypes::DataType::{adt}, is_nullable: {n}}}], metadata: sm"));
            let new = t(ck, &new);
            cell(ck, k, &what, &d, "metadata", &new);
            let named = format!("serialize_md({new})");
            ck.req(k, d.log.iter().any(|l| *l == named), format!("{what}:metadata"), (d.at.0.as_str(), d.at.1), format!("{what}: the metadata written must be {named}"));
            let with = before.replace("}]}", &format!("}}, storage::memtable::Column{{values: [storage::Value::Null, storage::Value::Null], dt: common::types::DType::{dt}}}]}}"));
            cell(ck, k, &what, &d, "memtable", &t(ck, &with));
            under(ck, k, &what, &d, &["create", "rename", "lock memtable"], &["metadata", "global_lock"]);
        }
    }
    let args = ["\"t\"", "\"n\"", "common::types::DType::String", "true"];
    let d = world().run(ck, f, Some(&own), &args);
    let (m, r) = (t(ck, &base(9)), t(ck, &before));
    for (i, (g, _)) in effects(&d).into_iter().enumerate() {
        let what = format!("add_field that fails at step {}", i + 1);
        let e = world().with(&g, "Err(io)").run(ck, f, Some(&own), &args);
        out(ck, k, &what, &e, false);
        cell(ck, k, &what, &e, "metadata", &m);
        ck.req(k, e.cells.get("memtable").map_or(true, |c| c.len() == 1 && c.contains(&r)), format!("{what}:memtable"), (e.at.0.as_str(), e.at.1), format!("{what}: the rows in memory must stay as they are; they are {:?}", e.cells.get("memtable")));
    }
    for (what, tb, c) in [("add_field that exists", "t", "a"), ("add_field to an unknown table", "u", "n")] {
        let d = world().run(ck, f, Some(&own), &[&format!("{tb:?}"), &format!("{c:?}"), args[2], args[3]]);
        out(ck, k, what, &d, false);
        steps(ck, k, what, &d, &[]);
        if tb == "t" {
            ck.req(k, d.out.iter().all(|o| o.contains("AlreadyExists")), format!("{what}:kind"), (d.at.0.as_str(), d.at.1), format!("{what} must be AlreadyExists, it is {:?}", d.out));
        }
    }
    // a new table
    let Some(f) = ck.func("storage::db::OptiDBImpl::create_table") else { return };
    let o = opts(1);
    let d = world().run(ck, f, Some(&own), &["\"v\"", &o]);
    dump(&d);
    out(ck, k, "create_table", &d, true);
    let p = |s: &str| format!("join(dir, \"tables/v{s}\")");
    let mut w = vec![format!("create_dir_all({})", p(""))];
    w.extend((0..3).map(|l| format!("create_dir_all({})", p(&format!("/levels/{l}")))));
    w.push(format!("open{{create read truncate write}}({l}) | open{{create truncate write}}({l}) | create({l})", l = p("/0000000000000000.log")));
    w.extend(md_steps(&p("/metadata")));
    steps(ck, k, "create_table", &d, &w);
    under(ck, k, "create_table", &d, &["read tables", "write tables", "create", "rename"], &["tables"]);
    let all = effects(&d);
    for (i, (g, _)) in all.iter().enumerate() {
        let what = format!("create_table that fails at step {}", i + 1);
        let e = world().with(g, "Err(io)").run(ck, f, Some(&own), &["\"v\"", &o]);
        out(ck, k, &what, &e, false);
        let one = e.cells.get("tables").map_or(true, |c| c.iter().all(|x| x.matches("Table{").count() == 1));
        ck.req(k, one, format!("{what}:tables"), (e.at.0.as_str(), e.at.1), format!("{what}: the table must not be there"));
    }
    let d2 = world().run(ck, f, Some(&own), &["\"t\"", &o]);
    out(ck, k, "create_table that exists", &d2, false);
    steps(ck, k, "create_table that exists", &d2, &[]);
    let two = d.cells.get("tables").cloned().unwrap_or_default();
    let levels = vec!["storage::table::Level{part_id: 0, parts: []}"; 3].join(", ");
    let want = t(ck, &format!("storage::table::Metadata{{version: 0, log_id: 0, table_name: \"v\", schema: sc, stats: st, levels: [{levels}], opts: {o}}}"));
    let parts = [want.split("schema: sc").next().unwrap_or("").to_string(), "name: \"v\"".into()];
    let ok = two.iter().any(|x| x.matches("Table{").count() == 2 && parts.iter().all(|p| x.contains(p.trim_end_matches(", "))));
    ck.req(k, ok, "create_table:table", (d.at.0.as_str(), d.at.1), format!("a new table must start with log 0, empty levels and its options ({parts:?}); the tables are {two:?}"));
}

fn scan(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::scan") else { return };
    let k = "storage-scan";
    let m = md(0, &[level(3, &[part(1, 5), part(2, 6)]), level(4, &[]), level(9, &[part(3, 7)])], 1);
    let own = db(&m, &mem(&[STORED]));
    let mut w = world().with("chunk", "Ok(rows)");
    w.shut.push("chunk");
    w.build = vec!["new"];
    let d = w.run(ck, f, Some(&own), &["\"t\"", "[0, 2]"]);
    dump(&d);
    let files = [file("levels/0/1.parquet"), file("levels/0/2.parquet"), file("levels/2/3.parquet")];
    let mut want = vec![".chunk(Some([0, 2]), 1, false) | memtable.chunk(Some([0, 2]), 1, false)".to_string()];
    for p in &files {
        want.push(format!("fs.open({p})"));
        want.push(format!("open({p})"));
    }
    steps(ck, k, "scan", &d, &want);
    under(ck, k, "scan", &d, &[".chunk", "fs.open", "open", "lock memtable"], &["metadata"]);
    let named = |c: &[usize]| c.iter().map(|c| t(ck, &field(FIELDS[*c].0, FIELDS[*c].1))).collect::<Vec<_>>().join(", ");
    let all = format!("Ok(ScanStream(MergingIterator([{}], rows, [{}], Options{{array_size: mas, chunk_size: mcs, fields: [\"k\", \"b\"], index_cols: 1, is_replacing: false}}), dir, {}, fs, \"t\"))", files.iter().map(|p| format!("open({p})")).collect::<Vec<_>>().join(", "), named(&[0, 2]), t(ck, &m));
    ck.req(k, d.out.len() == 1 && d.out.contains(&all), "scan:result", (d.at.0.as_str(), d.at.1), format!("a scan must merge the rows in memory with every part of every level, in the projected columns: {all}; it gives {:?}", d.out));
    // only rows in memory
    let none = md(0, &[level(3, &[]), level(4, &[])], 1);
    let d = w.run(ck, f, Some(&db(&none, &mem(&[STORED]))), &["\"t\"", "[0, 2]"]);
    let all = format!("Ok(ScanStream(MemChunkIterator(rows), dir, {}, fs, \"t\"))", t(ck, &none));
    ck.req(k, d.out.len() == 1 && d.out.contains(&all), "scan of memory:result", (d.at.0.as_str(), d.at.1), format!("a scan of a table without parts must give the rows in memory: {all}; it gives {:?}", d.out));
    let d = w.run(ck, f, Some(&own), &["\"u\"", "[0]"]);
    out(ck, k, "scan of an unknown table", &d, false);
    for (i, g) in want.iter().enumerate() {
        let g = g.split(" | ").next().unwrap();
        let mut wd = w.clone();
        wd.answers.insert(0, (g.into(), "Err(io)".into()));
        let d = wd.run(ck, f, Some(&own), &["\"t\"", "[0, 2]"]);
        out(ck, k, &format!("scan that fails at step {}", i + 1), &d, false);
    }
    // what a scan opened it closes, read to its end or not
    let Some(f) = ck.impl_fn("storage", "ScanStream", "Drop", "", "drop") else { return };
    let own = format!("storage::db::ScanStream{{iter: it, start_time: t0, path: dir, md: {m}, table_name: \"t\", fs: fs}}");
    let d = world().run(ck, f, Some(&own), &[]);
    steps(ck, k, "scan dropped", &d, &files.iter().map(|p| format!("fs.close({p})")).collect::<Vec<_>>());
    let d = world().with("fs.close", "Err(io)").run(ck, f, Some(&own), &[]);
    steps(ck, k, "scan dropped, close fails", &d, &files.iter().map(|p| format!("fs.close({p})")).collect::<Vec<_>>());
    let Some(f) = ck.impl_fn("storage", "ScanStream", "Stream", "", "poll_next") else { return };
    for (a, r) in [("None", "Poll::Ready(None)"), ("Some(Ok(c))", "Poll::Ready(Some(Ok(c)))"), ("Some(Err(e))", "Poll::Ready(Some(Err(e)))")] {
        let mut w = world().with("next", a);
        w.also.push("next");
        let d = w.run(ck, f, Some(&own), &["cx"]);
        ck.req(k, d.out.len() == 1 && (d.out.contains(r) || r.contains("Err") && d.out.contains("Err(e)")), format!("poll:{a}"), (d.at.0.as_str(), d.at.1), format!("a scan whose merge gives {a} must give {r}, it gives {:?}", d.out));
    }
}

fn get(ck: &mut Ck) {
    let Some(f) = ck.func("storage::memtable::Memtable::get") else { return };
    let k = "storage-get";
    let v = |n: usize| format!("storage::Value::Int64(Some({n}))");
    let s = |n: &str| format!("storage::Value::String(Some({n:?}))");
    let rows: Vec<Vec<String>> = [(1, 1, "p"), (1, 2, "q"), (2, 2, "r"), (1, 2, "s")].iter().map(|r| vec![v(r.0), v(r.1), s(r.2), "storage::Value::Null".to_string()]).collect();
    let m = mem(&rows.iter().map(|r| r.iter().map(|x| x.as_str()).collect::<Vec<_>>()).collect::<Vec<_>>().iter().map(|r| r.as_slice()).collect::<Vec<_>>());
    let key = |a: usize, b: usize| format!("[storage::KeyValue::Int64({a}), storage::KeyValue::Int64({b})]");
    for (a, b, at) in [(1, 1, Some(0)), (1, 2, Some(3)), (2, 2, Some(2)), (2, 1, None), (3, 3, None)] {
        let d = world().run(ck, f, Some(&m), &[&key(a, b)]);
        let want = match at {
            Some(i) => t(ck, &format!("Some([{}])", rows[i as usize].join(", "))),
            None => "None".into(),
        };
        ck.req(k, d.out.len() == 1 && d.out.contains(&want), format!("memtable:{a}:{b}"), (d.at.0.as_str(), d.at.1), format!("the row in memory with key ({a}, {b}) is {want}, found is {:?}", d.out));
    }
}

fn find(ck: &mut Ck) {
    let Some(f) = ck.func("storage::db::OptiDBImpl::get") else { return };
    let k = "storage-get";
    let m = md(0, &[level(4, &[partk(1, 1, 9), partk(2, 5, 5), partk(3, 6, 9)]), level(4, &[partk(1, 1, 4), partk(2, 4, 8)]), level(3, &[partk(7, 5, 7)])], 1);
    let own = db(&m, &mem(&[STORED]));
    let mut w = world().with("read_metadata", "Ok(arrow2::Meta{row_groups: []})").with("infer_schema", "Ok(sc)");
    w.also.extend(["read_metadata", "infer_schema"]);
    let opens = |l: &[(usize, usize)]| l.iter().map(|(l, p)| format!("open({})", file(&format!("levels/{l}/{p}.parquet")))).collect::<Vec<_>>();
    // a row in memory is the newest
    let d = w.run(ck, f, Some(&own), &["\"t\"", "[storage::KeyValue::Int64(5)]"]);
    steps(ck, k, "get of a row in memory", &d, &[]);
    let row = t(ck, &format!("Ok(Some([{}]))", STORED.join(", ")));
    ck.req(k, d.out.len() == 1 && d.out.contains(&row), "get of a row in memory:result", (d.at.0.as_str(), d.at.1), format!("a row in memory must be found there; found is {:?}", d.out));
    for (key, parts) in [(5, vec![(0, 2), (0, 1), (1, 2), (2, 7)]), (4, vec![(0, 1), (1, 2), (1, 1)]), (9, vec![(0, 3), (0, 1)]), (7, vec![(0, 3), (0, 1), (1, 2), (2, 7)]), (11, vec![])] {
        let d = w.run(ck, f, Some(&db(&m, &mem(&[]))), &["\"t\"", &format!("[storage::KeyValue::Int64({key})]")]);
        dump(&d);
        let got: Vec<String> = effects(&d).into_iter().map(|x| x.0).filter(|x| x.starts_with("open(")).collect();
        let want = opens(&parts);
        ck.req(k, got == want, format!("get:{key}:parts"), (d.at.0.as_str(), d.at.1), format!("a key must be looked for in every part whose range it lies in, newest first: {want:?}; looked in are {got:?}"));
        ck.req(k, d.out.len() == 1 && d.out.contains("Ok(None)"), format!("get:{key}:result"), (d.at.0.as_str(), d.at.1), format!("a key in no part must give None, it gives {:?}", d.out));
    }
    let d = w.run(ck, f, Some(&own), &["\"u\"", "[storage::KeyValue::Int64(5)]"]);
    out(ck, k, "get of an unknown table", &d, false);
}

fn counts(ck: &mut Ck) {
    let k = "storage-fs";
    let own = |n: usize| if n == 9 { format!("storage::Fs{{count: {}}}", lock("count", "[]")) } else { format!("storage::Fs{{count: {}}}", lock("count", &format!("[(\"p\", {n})]"))) };
    for (name, was, now) in [("open", 9, 1), ("open", 1, 2), ("close", 2, 1), ("close", 1, 0)] {
        let Some(f) = ck.func(&format!("storage::Fs::{name}")) else { return };
        let mut w = world();
        w.pure_.extend([("display", "@"), ("as_ref", "@")]);
        let d = w.run(ck, f, Some(&own(was)), &["\"p\""]);
        dump(&d);
        cell(ck, k, &format!("{name} of a file opened {} times", was % 9), &d, "count", &t(ck, &format!("[(\"p\", {now})]")));
    }
    let Some(f) = ck.func("storage::Fs::try_remove_file") else { return };
    for (was, removed) in [(9, true), (0, true), (1, false), (2, false)] {
        for (kind, ans, ok) in [("", "Ok(())", true), ("NotFound", "Err(e)", true), ("PermissionDenied", "Err(e)", false)] {
            let mut w = world().with("remove_file", ans);
            w.pure_.extend([("display", "@"), ("as_ref", "@"), ("kind", if kind == "NotFound" { "std::io::ErrorKind::NotFound" } else { "std::io::ErrorKind::PermissionDenied" })]);
            let d = w.run(ck, f, Some(&own(was)), &["\"p\""]);
            dump(&d);
            let what = format!("removal of a file opened {} times {kind}", was % 9);
            steps(ck, k, &what, &d, &if removed { vec!["remove_file(\"p\")".to_string()] } else { vec![] });
            out(ck, k, &what, &d, !removed || ok);
        }
    }
}

/// the parts `(level, part)` of a `Some([ToCompact..])`
fn chosen(o: &str) -> Option<Vec<(usize, usize)>> {
    let o = o.strip_prefix("Ok(Some([")?.strip_suffix("]))")?;
    o.split("ToCompact{").skip(1).map(|x| {
        let n = |k: &str| x.split(&format!("{k}: ")).nth(1).and_then(|y| y.split([',', '}']).next()).and_then(|y| y.parse().ok());
        Some((n("level")?, n("part")?))
    }).collect()
}
fn choose(ck: &mut Ck) {
    let Some(f) = ck.func("storage::compaction::determine_compaction") else { return };
    let k = "storage-choose";
    let o = opts(1);
    let p = |id: usize, size: usize, a: usize, b: usize| (id, size, a, b);
    let lv = |ps: &[(usize, usize, usize, usize)]| level(9, &ps.iter().map(|(id, size, a, b)| partk(*id, *a, *b).replace(&format!("size_bytes: {}", 10 * id), &format!("size_bytes: {size}"))).collect::<Vec<_>>());
    let next = [p(11, 1, 1, 3), p(12, 1, 4, 6), p(13, 1, 7, 9), p(14, 1, 10, 12)];
    // (level, its parts, whether it must be compacted)
    let cases: &[(usize, Vec<(usize, usize, usize, usize)>, Option<bool>)] = &[
        (0, vec![], Some(false)),
        (0, vec![p(1, 5, 4, 6)], Some(false)),
        (0, vec![p(1, 5, 4, 5), p(2, 5, 5, 5)], Some(true)),
        (0, vec![p(1, 5, 6, 6), p(2, 5, 5, 7), p(3, 5, 6, 6)], Some(true)),
        (0, vec![p(1, 5, 20, 30), p(2, 5, 25, 40)], Some(true)),
        (0, vec![p(1, 5, 3, 3), p(2, 5, 10, 10)], Some(true)),
        (1, vec![], Some(false)),
        (1, vec![p(1, 60, 1, 4)], Some(false)),
        (1, vec![p(1, 100, 1, 4)], Some(false)),
        (1, vec![p(1, 101, 2, 3)], Some(true)),
        (1, vec![p(1, 60, 1, 2), p(2, 60, 4, 5)], Some(true)),
        (1, vec![p(1, 50, 1, 2), p(2, 40, 4, 5), p(3, 90, 7, 10)], Some(true)),
        (2, vec![p(1, 999, 1, 4)], Some(false)),
        (2, vec![p(1, 1001, 9, 10)], Some(true)),
    ];
    for (lid, parts, must) in cases {
        let d = world().run(ck, f, None, &[&lid.to_string(), &lv(parts), &lv(&next), &o]);
        let at = (d.at.0.as_str(), d.at.1);
        let what = format!("level {lid} of parts {:?}", parts.iter().map(|p| (p.0, p.1)).collect::<Vec<_>>());
        if *must == Some(false) {
            ck.req(k, d.out.len() == 1 && d.out.contains("Ok(None)"), format!("{what}:none"), at, format!("{what} is within its limits and must be left alone, it gives {:?}", d.out));
            continue;
        }
        let got: Vec<Option<Vec<(usize, usize)>>> = d.out.iter().map(|o| chosen(o)).collect();
        let ok = got.len() == 1 && got[0].is_some();
        ck.req(k, ok, format!("{what}:some"), at, format!("{what} is over its limit and must be compacted, it gives {:?}", d.out));
        if !ok {
            continue;
        }
        let got = got[0].clone().unwrap();
        let mine: Vec<usize> = got.iter().filter(|x| x.0 == *lid).map(|x| x.1).collect();
        let known = mine.iter().all(|i| parts.iter().any(|p| p.0 == *i)) && !mine.is_empty() && got.iter().all(|x| x.0 == *lid || x.0 == lid + 1);
        let whole = *lid != 0 || mine.len() == parts.len();
        let mut once = got.clone();
        once.sort();
        once.dedup();
        ck.req(k, known && whole && once.len() == got.len(), format!("{what}:parts"), at, format!("{what}: each part over the limit (at level 0 every part) must be merged once; chosen are {got:?}"));
        let sel: Vec<&(usize, usize, usize, usize)> = parts.iter().filter(|p| mine.contains(&p.0)).collect();
        let (a, b) = (sel.iter().map(|p| p.2).min().unwrap_or(0), sel.iter().map(|p| p.3).max().unwrap_or(0));
        let want: Vec<usize> = next.iter().filter(|p| p.2 <= b && a <= p.3).map(|p| p.0).collect();
        let mut theirs: Vec<usize> = got.iter().filter(|x| x.0 == lid + 1).map(|x| x.1).collect();
        theirs.sort();
        ck.req(k, theirs == want, format!("{what}:overlap"), at, format!("{what}: keys {a} to {b} are merged, so the parts {want:?} of the next level, which hold keys in that range, must be merged with them; chosen are {theirs:?}"));
    }
}

fn compaction(ck: &mut Ck) {
    choose(ck);
    let Some(f) = ck.func("storage::compaction::compact") else { return };
    let k = "storage-compact";
    let o = opts(1);
    let args = |levels: &[String]| ["\"t\"".to_string(), format!("[{}]", levels.join(", ")), "dir".into(), "fs".into(), o.clone()];
    let w = || {
        let mut w = world().with("merge", &format!("Ok([storage::parquet::parquet_merger::MergedFile{{size_bytes: 31, values: 8, id: 5, min: [storage::parquet::ParquetValue::Int64(1)], max: [storage::parquet::ParquetValue::Int64(4)], path: {}}}, storage::parquet::parquet_merger::MergedFile{{size_bytes: 32, values: 9, id: 6, min: [storage::parquet::ParquetValue::Int64(5)], max: [storage::parquet::ParquetValue::Int64(7)], path: mp2}}])", "mp1"));
        w.shut.push("merge");
        w
    };
    let l = [level(3, &[partk(1, 1, 5), partk(2, 4, 7)]), level(4, &[partk(3, 1, 2), partk(4, 8, 9)]), level(7, &[]), level(0, &[])];
    fn go<'a>(ck: &mut Ck<'a>, f: &'a FnDef, w: &World, a: &[String]) -> Done {
        let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        w.run(ck, f, None, &a)
    }
    let pt = |l: usize, p: usize| file(&format!("levels/{l}/{p}.parquet"));
    let merged = |a: &[(usize, usize)], to: usize, id: usize, max: usize| {
        format!("merge([{}], fs, {}, {id}, \"t\", {}, Options{{array_page_size: 72, data_page_size_limit_bytes: Some(70), index_cols: 1, is_replacing: false, max_part_size_bytes: Some({max}), merge_max_page_size: 73, out_part_id: {id}, row_group_values_limit: 71}})",
            a.iter().map(|x| format!("open({})", pt(x.0, x.1))).collect::<Vec<_>>().join(", "), file(&format!("levels/{to}")), to - 1)
    };
    let got = |id: usize, size: usize, values: usize, a: usize, b: usize| partk(id, a, b).replace(&format!("size_bytes: {}", 10 * id), &format!("size_bytes: {size}")).replace("values: 1", &format!("values: {values}"));
    let ops = |close: &[String], del: &[String]| close.iter().map(|p| format!("storage::FsOp::Close({p})")).chain(del.iter().map(|p| format!("storage::FsOp::Delete({p})"))).collect::<Vec<_>>();
    // (case, levels, steps, parts taken from level 0, the levels afterwards, the files to close and to delete)
    let cases: Vec<(&str, Vec<String>, Vec<String>, &str, Vec<String>, Vec<String>)> = vec![
        (
            "compaction of level 0",
            vec![level(3, &[partk(1, 1, 5), partk(2, 4, 7)]), level(4, &[partk(3, 1, 2), partk(4, 17, 18)]), level(7, &[])],
            vec![merged(&[(0, 1), (0, 2), (1, 3)], 1, 5, 80), format!("fs.open({})", pt(0, 1)), format!("fs.open({})", pt(0, 2)), format!("fs.open({})", pt(1, 3))],
            "[1, 2]",
            vec![level(3, &[]), level(6, &[partk(4, 17, 18), got(5, 31, 8, 1, 4), got(6, 32, 9, 5, 7)]), level(7, &[])],
            ops(&["mp1".into(), "mp2".into()], &[pt(0, 1), pt(0, 2), pt(1, 3)]),
        ),
        (
            "compaction that goes on to level 1",
            l.to_vec(),
            vec![
                merged(&[(0, 1), (0, 2), (1, 3)], 1, 5, 80),
                format!("fs.open({})", pt(0, 1)),
                format!("fs.open({})", pt(0, 2)),
                format!("fs.open({})", pt(1, 3)),
                format!("fs.open({})", pt(1, 6)),
                format!("fs.open({})", pt(2, 8)),
                format!("copy({}, {})", pt(1, 6), pt(2, 8)),
            ],
            "[1, 2]",
            vec![level(3, &[]), level(6, &[partk(4, 8, 9), got(5, 31, 8, 1, 4)]), level(8, &[got(8, 32, 9, 5, 7)]), level(0, &[])],
            [ops(&["mp1".into(), "mp2".into()], &[pt(0, 1), pt(0, 2), pt(1, 3)]), ops(&[pt(2, 8)], &[pt(1, 6)])].concat(),
        ),
        ("compaction of nothing", vec![level(3, &[partk(1, 1, 5)]), level(4, &[partk(3, 1, 2), partk(4, 8, 9)]), level(7, &[]), level(0, &[])], vec![], "", vec![], vec![]),
        ("compaction of empty levels", vec![level(3, &[]), level(4, &[]), level(7, &[])], vec![], "", vec![], vec![]),
    ];
    for (what, levels, want, rem, after, fs) in &cases {
        let d = go(ck, f, &w(), &args(levels));
        dump(&d);
        let at = (d.at.0.clone(), d.at.1);
        steps(ck, k, what, &d, &want.iter().map(|x| x.replace(" | ", " ")).collect::<Vec<_>>());
        let r = if want.is_empty() { "Ok(None)".to_string() } else { t(ck, &format!("Ok(Some(storage::compaction::CompactResult{{l0_remove: {rem}, levels: [{}], fs_ops: [{}]}}))", after.join(", "), fs.join(", "))) };
        ck.req(k, d.out.len() == 1 && d.out.contains(&r), format!("{what}:result"), (at.0.as_str(), at.1), format!("{what} must give {r}; it gives {:?}", d.out));
        for g in want {
            let mut wd = w();
            wd.answers.insert(0, (g.clone(), "Err(io)".into()));
            let d = go(ck, f, &wd, &args(levels));
            out(ck, k, &format!("{what} where {} fails", cut(g)), &d, false);
        }
    }
    // level 0 with one part over the limit of none: moved, not merged
    let none = o.replace("l0_max_parts: 1", "l0_max_parts: 0");
    let mut a = args(&[level(3, &[partk(2, 1, 5)]), level(4, &[partk(3, 8, 9)]), level(7, &[])]);
    a[4] = none;
    let d = go(ck, f, &w(), &a);
    let what = "compaction of one part";
    steps(ck, k, what, &d, &[format!("fs.open({})", pt(0, 2)), format!("fs.open({})", pt(1, 5)), format!("copy({}, {})", pt(0, 2), pt(1, 5))]);
    let r = t(ck, &format!("Ok(Some(storage::compaction::CompactResult{{l0_remove: [2], levels: [{}, {}, {}], fs_ops: [{}]}}))", level(3, &[]), level(5, &[partk(3, 8, 9), partk(2, 1, 5).replace("id: 2", "id: 5")]), level(7, &[]), ops(&[pt(1, 5)], &[pt(0, 2)]).join(", ")));
    ck.req(k, d.out.len() == 1 && d.out.contains(&r), format!("{what}:result"), (d.at.0.as_str(), d.at.1), format!("{what} must give {r}; it gives {:?}", d.out));
    for g in [format!("fs.open({})", pt(0, 2)), format!("fs.open({})", pt(1, 5)), format!("copy({}, {})", pt(0, 2), pt(1, 5))] {
        let mut wd = w();
        wd.answers.insert(0, (g.clone(), "Err(io)".into()));
        let d = go(ck, f, &wd, &a);
        out(ck, k, &format!("{what} where {} fails", cut(&g)), &d, false);
    }
    compactor(ck);
}

/// a round of the compactor
fn compactor(ck: &mut Ck) {
    let Some(f) = ck.func("storage::compaction::Compactor::run") else { return };
    let k = "storage-compactor";
    let m = md(5, &[level(3, &[partk(1, 1, 5), partk(2, 4, 7), partk(3, 4, 8)]), level(4, &[partk(4, 1, 2)]), level(7, &[])], 1);
    let tb = format!("storage::table::Table{{name: \"t\", memtable: {}, metadata: {}, log: {}, cas: {}}}", lock("memtable", &mem(&[])), lock("metadata", &m), lock("log", "log7"), lock("cas", "cas0"));
    let own = format!("storage::compaction::Compactor{{tables: {}, path: dir, fs: fs, inbox: inbox, lock: {}}}", lock("tables", &format!("[{tb}]")), lock("global_lock", "g0"));
    let l = [level(3, &[]), level(6, &[partk(5, 1, 4), partk(6, 5, 7)]), level(8, &[partk(8, 9, 9)])];
    let res = format!("Ok(Some(storage::compaction::CompactResult{{l0_remove: [1, 2], levels: [{}], fs_ops: [storage::FsOp::Close(\"mp1\"), storage::FsOp::Delete(\"old1\"), storage::FsOp::Delete(\"old2\")]}}))", l.join(", "));
    let w = |r: &str| {
        let mut w = world().with("try_recv", "Err(std::sync::mpsc::TryRecvError::Empty)").with("compact", r);
        w.shut.push("compact");
        w.also.push("try_recv");
        w.rounds = 1;
        w
    };
    let d = w(&res).run(ck, f, Some(&own), &[]);
    dump(&d);
    let tmp = format!("with_extension({}, \"tmp\")", file("metadata"));
    let seen = t(ck, &format!("[{}]", [level(3, &[partk(1, 1, 5), partk(2, 4, 7), partk(3, 4, 8)]), level(4, &[partk(4, 1, 2)]), level(7, &[])].join(", ")));
    let what = "round of the compactor";
    steps(ck, k, what, &d, &[
        "inbox.try_recv()".into(),
        format!("compact(\"t\", {seen}, dir, fs, .."),
        format!("create({tmp})"),
        format!("create({tmp}).write_all(concat([to_le_bytes(hash_crc32(mdb)), to_le_bytes(60), mdb]))"),
        format!("rename({tmp}, {})", file("metadata")),
        "fs.close(\"mp1\")".into(),
        "fs.close(\"old1\")".into(),
        "fs.try_remove_file(\"old1\")".into(),
        "fs.close(\"old2\")".into(),
        "fs.try_remove_file(\"old2\")".into(),
    ]);
    under(ck, k, what, &d, &["compact(", "create(", "rename(", "fs.try_remove_file("], &["global_lock"]);
    under(ck, k, what, &d, &["serialize_md(", "create(", "rename("], &["metadata"]);
    let free = d.log.iter().zip(&d.held).filter(|(l, _)| l.starts_with("compact(")).all(|(_, h)| !h.iter().any(|h| h == "metadata" || h == "tables"));
    ck.req(k, free, format!("{what}:free"), (d.at.0.as_str(), d.at.1), format!("{what}: rows must be taken while parts are merged, so neither the tables nor the metadata may stay locked; the locks held are {:?}", d.held));
    let now = md(5, &[level(3, &[partk(3, 4, 8)]), l[1].clone(), l[2].clone()], 1);
    let want = format!("serialize_md({})", t(ck, &now));
    let put: Vec<&String> = d.log.iter().filter(|l| l.starts_with("serialize_md(")).collect();
    ck.req(k, put.len() == 1 && *put[0] == want, format!("{what}:metadata"), (d.at.0.as_str(), d.at.1), format!("{what}: the metadata must lose the merged parts of level 0 only, and take the other levels: {want}; written is {put:?}"));
    // nothing to do
    let d = w("Ok(None)").run(ck, f, Some(&own), &[]);
    steps(ck, k, "round of the compactor with nothing to do", &d, &["inbox.try_recv()".into(), "compact(..".into()]);
    for (what, a) in [("compactor told to stop", "Ok(storage::compaction::CompactorMessage::Stop(dropper))"), ("compactor left alone", "Err(std::sync::mpsc::TryRecvError::Disconnected)")] {
        let d = w(&res).with("try_recv", a).run(ck, f, Some(&own), &[]);
        steps(ck, k, what, &d, &["inbox.try_recv()".into()]);
    }
}

fn recovery(ck: &mut Ck) {
    let k = "storage-recover";
    let Some(f) = ck.func("storage::db::try_recover_table") else { return };
    let m = base(5);
    let mut w = world().with("deserialize_md", &format!("Ok({m})"));
    w = w.with("deserialize(read5)", "Ok(storage::db::LogOp::Insert([storage::KeyValue::Int64(5)], [storage::Value::Null, storage::Value::Boolean(Some(true)), storage::Value::Int8(Some(3))]))");
    w = w.with("deserialize(read7)", "Ok(storage::db::LogOp::Insert([storage::KeyValue::Int64(6)], [storage::Value::Null]))");
    w.also.push("metadata");
    w.rounds = 4;
    // the metadata (reads 1 to 3), then two records of 30 and 20 bytes
    w.pure_.extend([("from_le_bytes(read1)", "901"), ("from_le_bytes(read2)", "60"), ("from_le_bytes(try_into(read4[Range{end: 4}]))", "902"), ("from_le_bytes(try_into(read4[Range{start: 4}]))", "30"), ("from_le_bytes(try_into(read6[Range{end: 4}]))", "903"), ("from_le_bytes(try_into(read6[Range{start: 4}]))", "20"), ("from_le_bytes(try_into(read8[Range{start: 4}]))", "25"), ("len(lm)", "74")]);
    w = w.with("metadata", "Ok(lm)").with("read", "Ok(4)").with("hash_crc32(read3)", "901").with("hash_crc32(read5)", "902").with("hash_crc32(read7)", "903").with("read_exact", "Ok(())");
    w.also.push("deserialize");
    w.pure_.extend([("try_into(DataType::Int64)", "Ok(common::types::DType::Int64)"), ("try_into(DataType::Utf8)", "Ok(common::types::DType::String)"), ("try_into(DataType::Boolean)", "Ok(common::types::DType::Boolean)"), ("try_into(DataType::Int8)", "Ok(common::types::DType::Int8)")]);
    let mdf = "open(join(tdir, \"metadata\"))";
    let log = "open{read write}(join(tdir, \"0000000000000007.log\"))";
    let zeros = |n: usize| format!("[{}]", vec!["0"; n].join(", "));
    let rd = |f: &str, b: &str| format!("{f}.read_exact({b}) | {f}.read({b})");
    let ex = |b: &str| format!("{log}.read_exact({b})");
    let head = vec![mdf.to_string(), rd(mdf, &zeros(4)), rd(mdf, &zeros(8)), rd(mdf, "repeat(0, 60)"), "deserialize_md(read3)".into(), log.to_string(), format!("{log}.metadata()")];
    let one = vec![ex(&zeros(12)), ex("repeat(0, 30)"), "deserialize(read5) | deserialize<LogOp>(read5)".to_string()];
    let two = vec![ex(&zeros(12)), ex("repeat(0, 20)"), "deserialize(read7) | deserialize<LogOp>(read7)".to_string()];
    let end = |n: usize| vec![format!("{log}.set_len({n})"), format!("{log}.seek(SeekFrom::Start({n}))")];
    let rows: [&[&str]; 2] = [STORED, &["storage::Value::Int64(Some(6))", "storage::Value::Null", "storage::Value::Null", "storage::Value::Null"]];
    // (case, length of the log, records it holds, where it ends)
    let cases: &[(&str, &'static str, usize, usize)] = &[
        ("recovery of two records", "74", 2, 74),
        ("recovery of one record", "42", 1, 42),
        ("recovery of an empty log", "0", 0, 0),
        ("recovery of a log cut in a header", "85", 2, 74),
        ("recovery of a log cut after a header", "86", 2, 74),
        ("recovery of a log cut in a record", "110", 2, 74),
        ("recovery of a log cut in its second record", "73", 1, 42),
        ("recovery of a log cut in its first header", "11", 0, 0),
    ];
    for (what, len, n, at) in cases {
        let mut w = w.clone();
        w.pure_.insert(0, ("len(lm)", len));
        let d = w.run(ck, f, None, &["tdir", "\"t\""]);
        dump(&d);
        out(ck, k, what, &d, true);
        // a header may be read before its record is found to be cut
        let cut_in_record = matches!(*len, "86" | "110" | "73");
        let mut want = head.clone();
        if *n > 0 {
            want.extend(one.clone());
        }
        if *n > 1 {
            want.extend(two.clone());
        }
        if cut_in_record {
            want.push(ex(&zeros(12)));
        }
        want.extend(end(*at));
        steps(ck, k, what, &d, &want);
        let mem = t(ck, &format!("storage::table::Table{{memtable: {}}}", mem(&rows[..*n])));
        let mem = mem.split_once("memtable: ").unwrap().1.trim_end_matches('}').to_string();
        let cols = |s: &str| s.split("values: ").skip(1).map(|x| x.split("]}").next().unwrap_or("").to_string()).collect::<Vec<_>>();
        let got: Vec<String> = d.out.iter().filter_map(|o| o.split_once("memtable: Memtable{").map(|x| x.1.split("metadata: ").next().unwrap_or("").to_string())).collect();
        ck.req(k, got.len() == 1 && cols(&got[0]) == cols(&mem), format!("{what}:rows"), (d.at.0.as_str(), d.at.1), format!("{what}: the rows in memory must be {mem}; they are {got:?}"));
        let md = t(ck, &base(*at));
        let ok = d.out.len() == 1 && d.out.iter().all(|o| o.contains(&md) && o.contains(&format!("log: {log}")) && o.contains("name: \"t\"}"));
        ck.req(k, ok, format!("{what}:table"), (d.at.0.as_str(), d.at.1), format!("{what}: the table must have the metadata {md} and go on with the log it recovered; it is {:?}", d.out));
    }
    let full: Vec<String> = [head.clone(), one, two, end(74)].concat();
    for g in full.iter().flat_map(|g| g.split(" | ")) {
        if !g.starts_with("open") && !g.starts_with("deserialize") {
            continue;
        }
        let mut wd = w.clone();
        wd.answers.insert(0, (g.to_string(), "Err(io)".into()));
        let d = wd.run(ck, f, None, &["tdir", "\"t\""]);
        if !d.log.iter().any(|l| l == g) {
            continue;
        }
        let bad = d.out.iter().any(|o| o.starts_with("Ok("));
        ck.req(k, !bad, format!("recovery where {} fails", cut(g)), (d.at.0.as_str(), d.at.1), format!("a table may not be recovered where {g} fails; it gives {:?}", d.out));
    }
    for (what, crc) in [("metadata", "hash_crc32(read3)"), ("the first record", "hash_crc32(read5)"), ("the second record", "hash_crc32(read7)")] {
        let mut wd = w.clone();
        wd.answers.insert(0, (crc.into(), "999".into()));
        let d = wd.run(ck, f, None, &["tdir", "\"t\""]);
        let what = format!("recovery with a wrong checksum of {what}");
        out(ck, k, &what, &d, false);
        ck.req(k, !d.log.iter().any(|l| l.contains(".set_len(")), format!("{what}:cut"), (d.at.0.as_str(), d.at.1), format!("{what}: the log may not be cut"));
    }
    // which tables
    let Some(f) = ck.func("storage::db::recover_tables") else { return };
    let mut w = world().with("try_recover_table", "Ok(tbl#)").with("read_dir", "Ok([Ok(d1), Ok(d2), Ok(d3)])");
    w.shut.push("try_recover_table");
    w.pure_.extend([("path(d1)", "d1"), ("path(d2)", "d2"), ("path(d3)", "d3"), ("file_name(d1)", "\"n1\""), ("file_name(d2)", "\"n2\""), ("file_name(d3)", "\"n3\""), ("to_os_string", "@"), ("into_string", "Ok(@)"), ("exists(join(d1, \"metadata\"))", "true"), ("exists(join(d2, \"metadata\"))", "false"), ("exists(join(d3, \"metadata\"))", "true")]);
    let d = w.run(ck, f, None, &["dir"]);
    dump(&d);
    let want = vec!["create_dir_all(join(dir, \"tables\"))".to_string(), "read_dir(join(dir, \"tables\"))".into(), "try_recover_table(d1, \"n1\")".into(), "try_recover_table(d3, \"n3\")".into()];
    steps(ck, k, "recovery", &d, &want);
    ck.req(k, d.out.len() == 1 && d.out.contains("Ok([tbl1, tbl2])"), "recovery:result", (d.at.0.as_str(), d.at.1), format!("recovery must give every table that was created, it gives {:?}", d.out));
    for g in want.iter() {
        let mut wd = w.clone();
        wd.answers.insert(0, (g.clone(), "Err(io)".into()));
        let d = wd.run(ck, f, None, &["dir"]);
        out(ck, k, &format!("recovery where {} fails", cut(g)), &d, false);
    }
}

fn backup(ck: &mut Ck) {
    let k = "storage-backup";
    let Some(f) = ck.func("storage::db::OptiDBImpl::full_backup") else { return };
    let m = md(5, &[level(3, &[part(1, 11), part(2, 12)]), level(4, &[part(3, 13)])], 1);
    let m2 = md(5, &[level(0, &[]), level(4, &[part(4, 14)])], 1).replace("log_id: 7", "log_id: 9").replace("table_name: \"t\"", "table_name: \"u\"");
    let tb = |n: &str, m: &str| format!("storage::table::Table{{name: {n:?}, memtable: {}, metadata: {}, log: {}, cas: {}}}", lock("memtable", &mem(&[STORED])), lock("metadata", m), lock("log", "log7"), lock("cas", "cas0"));
    let own = format!("storage::db::OptiDBImpl{{opts: o, tables: {}, global_lock: {}, backup_lock: {}, compactor_outbox: ob, path: dir, fs: fs}}", lock("tables", &format!("[{}, {}]", tb("t", &m), tb("u", &m2))), lock("global_lock", "g0"), lock("backup_lock", "b0"));
    let at_ = |t: &str, s: &str| format!("join(dir, \"tables/{t}/{s}\")");
    let logs = [at_("t", "0000000000000007.log"), at_("u", "0000000000000009.log")];
    let parts = [vec![at_("t", "levels/0/1.parquet"), at_("t", "levels/0/2.parquet"), at_("t", "levels/1/3.parquet")], vec![at_("u", "levels/1/4.parquet")]];
    let mut w = world().with("metadata", "Ok(lm)").with(&format!("metadata({})", logs[0]), "Ok(lm)").with(&format!("metadata({})", logs[1]), "Ok(lm2)");
    w.answers.rotate_right(2);
    w.also.push("metadata");
    w.pure_.extend([("len(lm)", "74"), ("len(lm2)", "75")]);
    let d = w.run(ck, f, Some(&own), &["writer", "cb"]);
    dump(&d);
    let at = (d.at.0.clone(), d.at.1);
    let at = (at.0.as_str(), at.1);
    let what = "full_backup";
    out(ck, k, what, &d, true);
    under(ck, k, what, &d, &["fs.open(", "metadata("], &["global_lock", "backup_lock"]);
    under(ck, k, what, &d, &["writer.write_all(", "copy(", "fs.close("], &["backup_lock"]);
    let free = d.log.iter().zip(&d.held).filter(|(l, _)| l.starts_with("copy(")).all(|(_, h)| h == &vec!["backup_lock".to_string()]);
    ck.req(k, free, "full_backup:free".to_string(), at, "full_backup: rows must be taken while files are copied, so nothing but the backups may be locked then".to_string());
    // what is written, in order
    let copied: Vec<(String, String)> = d.log.iter().filter_map(|l| l.strip_prefix("copy(join(")?.strip_suffix(')')?.split_once("), ").map(|x| (format!("join({})", x.0), x.1.to_string()))).filter(|x| x.1 != "writer").collect();
    let source = |s: &str| {
        let s = s.strip_prefix("open{read}(").and_then(|s| s.strip_suffix(')')).unwrap_or(s).to_string();
        copied.iter().find(|x| x.1 == s).map(|x| x.0.clone()).unwrap_or(s)
    };
    let got: Vec<String> = d.log.iter().filter_map(|l| {
        if let Some(x) = l.strip_prefix("writer.write_all(") {
            return Some(x.strip_suffix(')')?.to_string());
        }
        let x = l.strip_prefix("copy(")?.strip_suffix(", writer)")?;
        Some(match x.strip_prefix("take(").and_then(|x| x.strip_suffix(')')).and_then(|x| x.rsplit_once(", ")) {
            Some((f, n)) => format!("{n} bytes of {}", source(f)),
            None => format!("all of {}", source(x)),
        })
    }).collect();
    let mut want = vec!["to_le_bytes(1)".to_string(), "to_le_bytes(40)".into(), "rec1".into()];
    for (i, n) in [74, 75].iter().enumerate() {
        want.push(format!("to_le_bytes({n})"));
        want.push(format!("{n} bytes of {}", logs[i]));
        want.extend(parts[i].iter().map(|p| format!("all of {p}")));
    }
    want.push("[1, 2, 3, 4, 5, 6, 7, 8]".into());
    ck.req(k, got == want, "full_backup:content", at, format!("full_backup must write {want:?}; it writes {got:?}"));
    let st = t(ck, &format!("[storage::SerializableTable{{name: \"t\", metadata: {m}}}, storage::SerializableTable{{name: \"u\", metadata: {m2}}}]"));
    let put: Vec<&String> = d.log.iter().filter(|l| l.starts_with("serialize(")).collect();
    ck.req(k, put.len() == 1 && put[0].contains(&format!("({st})")), "full_backup:tables", at, format!("full_backup must write every table with its metadata: {st}; written is {put:?}"));
    // a file stays open from the snapshot until it was read
    for (i, p) in logs.iter().chain(parts.iter().flatten()).enumerate() {
        let pos = |s: &str| d.log.iter().enumerate().filter(|x| x.1.starts_with(s)).map(|x| x.0).collect::<Vec<_>>();
        let (o, c, u) = (pos(&format!("fs.open({p})")), pos(&format!("fs.close({p})")), pos("unlock global_lock"));
        let r: Vec<usize> = pos(&format!("copy({p}, ")).into_iter().chain(pos(&format!("copy(open{{read}}({p})"))).chain(pos(&format!("copy(take(open{{read}}({p})"))).chain(pos(&format!("open{{read}}({p})"))).collect();
        let ok = o.len() == 1 && c.len() == 1 && !u.is_empty() && !r.is_empty() && o[0] < u[0] && r.iter().all(|r| o[0] < *r && *r < c[0]);
        ck.req(k, ok, format!("full_backup:kept:{i}"), at, format!("full_backup: {p} must be held open from the snapshot until it was read, once; opened at step {o:?}, read at {r:?}, closed at {c:?}, the snapshot ends at {u:?}"));
    }
    let lens = logs.iter().all(|l| d.log.iter().position(|x| *x == format!("metadata({l})")).map_or(false, |i| d.held[i].iter().any(|h| h == "global_lock")));
    ck.req(k, lens, "full_backup:lengths", at, "full_backup: the length of each log must be taken in the snapshot, for rows logged later belong to a later state".to_string());
    let all: Vec<String> = effects(&d).into_iter().map(|x| x.0).collect();
    for (i, g) in all.iter().enumerate() {
        if all.iter().position(|x| x == g) != Some(i) || g.starts_with("open{read}(join") {
            continue;
        }
        let mut wd = w.clone();
        wd.answers.insert(0, (g.clone(), "Err(io)".into()));
        let d = wd.run(ck, f, Some(&own), &["writer", "cb"]);
        out(ck, k, &format!("full_backup where {} fails", cut(g)), &d, false);
    }

    let k = "storage-restore";
    let Some(f) = ck.func("storage::db::OptiDBImpl::full_restore") else { return };
    let mut w = world().with("deserialize", &format!("Ok([storage::SerializableTable{{name: \"t\", metadata: {m}}}, storage::SerializableTable{{name: \"u\", metadata: {m2}}}])")).with("recover_tables", "Ok(restored)").with("read_exact", "Ok(())");
    w.also.push("deserialize");
    w.shut.extend(["recover_tables", "truncate_all"]);
    w.pure_.extend([("from_le_bytes(read1)", "1"), ("from_le_bytes(read2)", "40"), ("from_le_bytes(read4)", "74"), ("from_le_bytes(read5)", "75")]);
    let d = w.run(ck, f, Some(&own), &["reader"]);
    dump(&d);
    let at = (d.at.0.clone(), d.at.1);
    let at = (at.0.as_str(), at.1);
    let rd = |n: usize| format!("reader.read_exact([{}])", vec!["0"; n].join(", "));
    let mut want = vec![rd(8), rd(8), "reader.read_exact(repeat(0, 40))".into(), "deserialize(read3) | deserialize<Vec<SerializableTable>>(read3)".into(), ".truncate_all()".into()];
    for (i, (t, n)) in [("t", 74), ("u", 75)].iter().enumerate() {
        let tmp = format!("with_extension({}, \"tmp\")", at_(t, "metadata"));
        want.push(format!("create_dir_all(join(dir, \"tables/{t}\"))"));
        want.push(format!("create({tmp})"));
        want.push(format!("create({tmp}).write_all(concat([to_le_bytes(hash_crc32(mdb)), to_le_bytes(60), mdb]))"));
        want.push(format!("rename({tmp}, {})", at_(t, "metadata")));
        let log = at_(t, "0000000000000000.log");
        want.push(rd(8));
        want.push(format!("create({log})"));
        want.push(format!("copy(take(reader, {n}), create({log}))"));
        want.push(format!("create_dir({})", at_(t, "levels")));
        for l in 0..2 {
            want.push(format!("create_dir({})", at_(t, &format!("levels/{l}"))));
            for p in &parts[i] {
                if let Some(id) = p.split(&format!("levels/{l}/")).nth(1).and_then(|x| x.split('.').next()) {
                    want.push(format!("create({p})"));
                    want.push(format!("copy(take(reader, 1{id}), create({p}))"));
                }
            }
        }
    }
    let body = want.len();
    want.extend([rd(8), "recover_tables(dir)".into()]);
    let got: Vec<String> = effects(&d).into_iter().map(|x| x.0).collect();
    let what = "full_restore";
    // the directories may be made and the metadata written at any point of a table; the backup is read in order
    let of = |l: &[String], r: bool| l.iter().filter(|x| (x.contains("reader") || x.contains("recover_tables") || x.contains("truncate_all") || x.contains("deserialize")) == r).cloned().collect::<Vec<_>>();
    let same = |a: &[String], b: &[String]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| b.split(" | ").any(|b| a == b));
    let read = same(&of(&got, true), &of(&want, true));
    ck.req(k, read, "full_restore:read", at, format!("full_restore must read the backup in the order it was written: {:?}; it does {:?}", of(&want, true), of(&got, true)));
    let (mut a, mut b) = (of(&got, false), of(&want, false));
    a.sort();
    b.sort();
    ck.req(k, same(&a, &b), "full_restore:files", at, format!("full_restore must put back {b:?}; it does {a:?}"));
    let pos = |s: &str| got.iter().position(|x| x == s);
    let cleared = pos(".truncate_all()");
    let order = want[4..body].iter().filter(|x| x.starts_with("create") || x.starts_with("rename")).all(|x| pos(x) > cleared && pos(x) < pos("recover_tables(dir)"));
    ck.req(k, order && cleared.is_some(), "full_restore:order", at, format!("full_restore must clear the tables, then put the files back, then recover them; it does {got:?}"));
    under(ck, k, what, &d, &["reader.", "copy(", ".truncate_all", "recover_tables(", "write tables"], &["backup_lock", "global_lock"]);
    for (n, m) in [("t", &m), ("u", &m2)] {
        let want = format!("serialize_md({})", t(ck, &m.replace("log_id: 7", "log_id: 0").replace("log_id: 9", "log_id: 0").replace("{version: 0", "{version: 1")));
        ck.req(k, d.log.iter().filter(|l| **l == want).count() == 1, format!("full_restore:metadata:{n}"), at, format!("full_restore must write the metadata of {n} with log 0: {want}; written is {:?}", d.log.iter().filter(|l| l.starts_with("serialize_md(")).collect::<Vec<_>>()));
    }
    ck.req(k, d.out.iter().all(|o| o.starts_with("Ok(()") || o.contains("InvalidBackupMagicNumber")) && d.out.len() == 2, "full_restore:result", at, format!("full_restore must succeed exactly if the backup ends with its mark, it gives {:?}", d.out));
    let now = d.cells.get("tables").cloned().unwrap_or_default();
    ck.req(k, now.contains("restored"), "full_restore:tables", at, format!("after full_restore the restored tables must be in use, they are {now:?}"));
    for (i, g) in got.iter().enumerate() {
        if got.iter().position(|x| x == g) != Some(i) {
            continue;
        }
        let mut wd = w.clone();
        wd.answers.insert(0, (g.clone(), "Err(io)".into()));
        let d = wd.run(ck, f, Some(&own), &["reader"]);
        let bad = d.out.iter().any(|o| o.starts_with("Ok("));
        ck.req(k, !bad, format!("full_restore where {} fails", cut(g)), at, format!("full_restore may not succeed where {g} fails; it gives {:?}", d.out));
        if cleared.map_or(false, |c| i < c) {
            let kept = !d.log.iter().any(|l| l.contains("truncate_all"));
            ck.req(k, kept, format!("full_restore where {} fails:kept", cut(g)), at, format!("a backup whose header cannot be read may not clear the tables ({g} fails)"));
        }
    }
    // clearing
    let Some(f) = ck.func("storage::db::OptiDBImpl::truncate_all") else { return };
    let d = world().run(ck, f, Some(&own), &[]);
    dump(&d);
    let want: Vec<String> = ["t", "u"].iter().map(|t| format!("remove_dir_all(join(dir, \"tables/{t}\"))")).collect();
    steps(ck, k, "truncate_all", &d, &want);
    cell(ck, k, "truncate_all", &d, "tables", "[]");
    under(ck, k, "truncate_all", &d, &["remove_dir_all"], &["tables"]);
    for g in want {
        let d = world().with(&g, "Err(io)").run(ck, f, Some(&own), &[]);
        out(ck, k, &format!("truncate_all where {} fails", cut(&g)), &d, false);
    }
}

fn collector(ck: &mut Ck) {
    let k = "storage-gc";
    let Some(f) = ck.func("storage::db::gc") else { return };
    let m = md(5, &[level(3, &[part(1, 11), part(2, 12)]), level(4, &[part(3, 13)]), level(0, &[])], 1);
    let tb = format!("storage::table::Table{{name: \"t\", memtable: {}, metadata: {}, log: {}, cas: {}}}", lock("memtable", &mem(&[STORED])), lock("metadata", &m), lock("log", "log7"), lock("cas", "cas0"));
    let mut w = world();
    w.rounds = 1;
    w.pure_.extend([("to_os_string", "@"), ("into_string", "Ok(@)"), ("to_string_lossy", "@"), ("to_str", "Some(@)")]);
    // (entry, its name, whether it is garbage)
    type Entry = (&'static str, &'static str, &'static str, &'static str);
    let top: &[(Entry, bool)] = &[
        (("file_name(ea)", "\"0000000000000006.log\"", "path(ea)", "pa"), true),
        (("file_name(eb)", "\"0000000000000007.log\"", "path(eb)", "pb"), false),
        (("file_name(ec)", "\"0000000000000008.log\"", "path(ec)", "pc"), false),
        (("file_name(ed)", "\"metadata\"", "path(ed)", "pd"), false),
        (("file_name(ee)", "\"levels\"", "path(ee)", "pe"), false),
        (("file_name(ef)", "\"0000000000000006.log.bak\"", "path(ef)", "pf"), false),
    ];
    let l0: &[(Entry, bool)] = &[
        (("file_name(eg)", "\"1.parquet\"", "path(eg)", "pg"), false),
        (("file_name(eh)", "\"2.parquet\"", "path(eh)", "ph"), false),
        (("file_name(ei)", "\"3.parquet\"", "path(ei)", "pi"), true),
    ];
    let l1: &[(Entry, bool)] = &[(("file_name(ej)", "\"3.parquet\"", "path(ej)", "pj"), false), (("file_name(ek)", "\"1.parquet\"", "path(ek)", "pk"), true), (("file_name(el)", "\"note.txt\"", "path(el)", "pl"), false)];
    let list = |e: &[(Entry, bool)]| format!("Ok([{}])", e.iter().map(|x| format!("Ok({})", &x.0.0[10..x.0.0.len() - 1])).collect::<Vec<_>>().join(", "));
    for (dir, e) in [(file("").replace("/\")", "\")"), top), (file("levels/0"), l0), (file("levels/1"), l1), (file("levels/2"), &[])] {
        w = w.with(&format!("read_dir({dir})"), &list(e));
        for (x, _) in e {
            w.pure_.extend([(x.0, x.1), (x.2, x.3)]);
        }
    }
    let d = w.run(ck, f, None, &[&lock("tables", &format!("[{tb}]")), "dir", "fs", &lock("global_lock", "g0")]);
    dump(&d);
    let at = (d.at.0.as_str(), d.at.1);
    for (x, gone) in top.iter().chain(l0).chain(l1) {
        let n = d.log.iter().filter(|l| **l == format!("fs.try_remove_file({})", x.3)).count();
        let ok = (n > 0) == *gone;
        ck.req(k, ok, format!("gc:{}:{}", x.0, x.1), at, format!("{} is {} by the metadata (log 7; parts 1 and 2 of level 0, 3 of level 1), so it must {} removed", x.1, if *gone { "not used" } else { "used" }, if *gone { "be" } else { "not be" }));
    }
    let known = d.log.iter().filter(|l| l.contains("remove")).all(|l| ["pa", "pi", "pk"].iter().any(|p| *l == format!("fs.try_remove_file({p})")));
    ck.req(k, known, "gc:only", at, format!("only files that no part and no log needs may be removed, and only while nobody reads them; the steps are {:?}", d.log));
    under(ck, k, "gc", &d, &["read_dir(", "fs.try_remove_file("], &["metadata", "global_lock"]);
}

fn versions(ck: &mut Ck) {
    let k = "storage-cas";
    let own = db(&md(5, &[level(3, &[]), level(4, &[])], 2), &mem(&[]));
    let row = |c: &str| format!("[storage::NamedValue{{name: \"k\", value: storage::Value::Int64(Some(5))}}, storage::NamedValue{{name: \"a\", value: {c}}}, storage::NamedValue{{name: \"c\", value: storage::Value::Int8(Some(3))}}]");
    let Some(f) = ck.func("storage::db::OptiDBImpl::replace") else { return };
    let int = |n: usize| format!("storage::Value::Int64(Some({n}))");
    let key = t(ck, &format!("[{}]", int(5)));
    let ins = format!(".insert(\"t\", {})", t(ck, &row(&int(8))));
    for (what, was, ok) in [("replace of a row not read before", "None", true), ("replace of the version read", "Some(8)", true), ("replace of another version than was read", "Some(7)", false)] {
        let mut w = world().with("pop", was).with(".insert", "Ok(())");
        w.also.push("pop");
        w.shut.push("insert");
        let d = w.run(ck, f, Some(&own), &["\"t\"", &row(&int(8))]);
        dump(&d);
        out(ck, k, what, &d, ok);
        let mut want = vec![format!("cas0.pop({key}) | cas.pop({key}) | .pop({key})")];
        if ok {
            want.push(ins.clone());
        }
        steps(ck, k, what, &d, &want);
        under(ck, k, what, &d, &["cas0.pop(", "cas.pop(", ".pop("], &["cas"]);
    }
    let Some(f) = ck.func("storage::db::OptiDBImpl::get_cas") else { return };
    for (what, got, put) in [("get_cas of no row", "Ok(None)".to_string(), false), ("get_cas of a row", format!("Ok(Some([{}, {}, {}]))", int(5), int(8), int(1)), true), ("get_cas that fails", "Err(e)".to_string(), false)] {
        let mut w = world().with(".get", &got);
        w.also.push("put");
        w.shut.push("get");
        let d = w.run(ck, f, Some(&own), &["\"t\"", "[storage::KeyValue::Int64(5)]"]);
        dump(&d);
        let mut want = vec![".get(\"t\", [KeyValue::Int64(5)])".to_string()];
        if put {
            want.push(format!("cas0.put({key}, 8) | cas.put({key}, 8) | .put({key}, 8)"));
        }
        steps(ck, k, what, &d, &want);
        let r = t(ck, &got);
        ck.req(k, d.out.len() == 1 && (d.out.contains(&r) || r.starts_with("Err") && d.out.iter().all(|o| o.starts_with("Err"))), format!("{what}:result"), (d.at.0.as_str(), d.at.1), format!("{what} must give {r}, it gives {:?}", d.out));
    }
}

/// what is asked of a table under its locks
fn asked(ck: &mut Ck) {
    let k = "storage-read";
    let m = md(5, &[level(3, &[part(1, 11), part(2, 12)]), level(4, &[part(3, 13)])], 1);
    let own = db(&m, &mem(&[]));
    let sc = m.split("schema: ").nth(1).and_then(|x| x.split(", stats: ").next()).unwrap_or("").to_string();
    let paths = [file("levels/0/1.parquet"), file("levels/0/2.parquet"), file("levels/1/3.parquet")].join(", ");
    for (name, want) in [("schema", format!("Ok({sc})")), ("table_options", format!("Ok({})", opts(1))), ("parts_path", String::new())] {
        let Some(f) = ck.func(&format!("storage::db::OptiDBImpl::{name}")) else { continue };
        let mut w = world();
        w.pure_.extend([("into_os_string", "@"), ("into_string", "Ok(@)"), ("to_string_lossy", "@"), ("to_str", "Some(@)")]);
        let d = w.run(ck, f, Some(&own), &["\"t\""]);
        dump(&d);
        let want = if want.is_empty() { format!("Ok([{paths}])") } else { t(ck, &want) };
        ck.req(k, d.out.len() == 1 && d.out.contains(&want), format!("{name}:result"), (d.at.0.as_str(), d.at.1), format!("{name} must give {want}, it gives {:?}", d.out));
        let d = w.run(ck, f, Some(&own), &["\"u\""]);
        out(ck, k, &format!("{name} of an unknown table"), &d, false);
    }
}

/// a local backup goes through a compressed file
fn packed(ck: &mut Ck) {
    let k = "storage-backup";
    let own = db(&md(5, &[], 1), &mem(&[]));
    let mut codecs: Vec<Vec<String>> = vec![];
    for (name, want) in [
        ("full_backup_local", vec!["create(p)", ".full_backup(..", ".finish() | .try_finish() | .."]),
        ("full_restore_local", vec!["open(p)", ".full_restore(.."]),
    ] {
        let Some(f) = ck.func(&format!("storage::db::OptiDBImpl::{name}")) else { continue };
        let mut w = world();
        w.shut.extend(["full_backup", "full_restore"]);
        let args: &[&str] = if name.contains("backup") { &["p", "cb"] } else { &["p"] };
        let d = w.run(ck, f, Some(&own), args);
        dump(&d);
        let want: Vec<String> = want.iter().map(|x| x.to_string()).collect();
        out(ck, k, name, &d, true);
        steps(ck, k, name, &d, &want);
        for g in effects(&d).into_iter().map(|x| x.0) {
            let d = w.clone().with(&g, "Err(io)").run(ck, f, Some(&own), args);
            out(ck, k, &format!("{name} where {} fails", cut(&g)), &d, false);
        }
        let code = quote::ToTokens::to_token_stream(&f.block).to_string();
        let mut c: Vec<String> = code.split(|c: char| !c.is_alphanumeric() && c != '_').filter_map(|w| w.strip_suffix("Encoder").or_else(|| w.strip_suffix("Decoder"))).map(|x| x.to_string()).collect();
        c.dedup();
        codecs.push(c);
        if codecs.len() == 2 {
            ck.req(k, codecs[0] == codecs[1] || codecs.iter().any(|c| c.is_empty()), "backup:codec", (d.at.0.as_str(), d.at.1), format!("a backup must be unpacked the way it was packed: packed by {:?}, unpacked by {:?}", codecs[0], codecs[1]));
        }
    }
}

/// no two locks of the storage are taken in both orders, and none twice
fn orders(ck: &mut Ck) {
    let edges = take_edges();
    let mut next: std::collections::BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
    for e in &edges {
        next.entry(e.0.clone()).or_default().insert(e.1.clone());
    }
    let reach = |from: &str, to: &str| {
        let mut seen = std::collections::BTreeSet::new();
        let mut todo = vec![from.to_string()];
        while let Some(x) = todo.pop() {
            if x == to {
                return true;
            }
            if seen.insert(x.clone()) {
                todo.extend(next.get(&x).into_iter().flatten().cloned());
            }
        }
        false
    };
    let pairs: std::collections::BTreeMap<(String, String), (String, String, usize)> = edges.iter().map(|e| ((e.0.clone(), e.1.clone()), (e.2.clone(), e.3.clone(), e.4))).collect();
    for ((a, b), (at, file, line)) in pairs {
        let ok = a != b && !reach(&b, &a);
        ck.req("storage-locks", ok, format!("{a}:{b}"), (file.as_str(), line), format!("{at} takes the lock {b} while it holds {a}, and elsewhere {a} is taken while {b} is held: two threads may wait for each other for ever"));
    }
    ck.floor("storage-locks", 10);
}

pub fn dump(d: &Done) {
    if std::env::var("DISK").is_ok() {
        for (l, h) in d.log.iter().zip(&d.held) {
            eprintln!("{l} @ {}", h.join(" "));
        }
        eprintln!("out {:?}\ncells {:#?}\nedges {:?}", d.out, d.cells, d.edges);
    }
}

/// what is written, and what is there again after a restart
pub fn check(ck: &mut Ck) {
    ck.rule("effects: each case interpreted on a concrete table with symbolic rows; calls, order, locks held and final state equal the listed ones; each call failing in turn ends the function with nothing after it");
    versions(ck);
    insert(ck);
    types(ck);
    recovery(ck);
    flush(ck);
    fields(ck);
    for kind in ["storage-insert", "storage-types", "storage-flush", "storage-field", "storage-recover", "storage-cas"] {
        ck.floor(kind, 8);
    }
}

/// what is read, merged and removed, and the locks under which all of it happens
pub fn check_reads(ck: &mut Ck) {
    ck.rule("effects: files opened, counted, merged, removed and closed equal the listed ones; the graph of locks taken while others are held has no cycle");
    take_edges();
    asked(ck);
    collector(ck);
    compaction(ck);
    counts(ck);
    get(ck);
    find(ck);
    scan(ck);
    for kind in ["storage-scan", "storage-get", "storage-fs", "storage-choose", "storage-compact", "storage-compactor", "storage-gc", "storage-read"] {
        ck.floor(kind, 6);
    }
    let mut rest = Ck::new(ck.m, "C23");
    check(&mut rest);
    check_backup(&mut rest);
    orders(ck);
}

/// what is saved and put back
pub fn check_backup(ck: &mut Ck) {
    ck.rule("effects: what is written to and read from a backup, in which order and under which locks, equals the listed ones; restore reads what backup writes");
    backup(ck);
    packed(ck);
    for (kind, n) in [("storage-backup", 40), ("storage-restore", 10)] {
        ck.floor(kind, n);
    }
}
