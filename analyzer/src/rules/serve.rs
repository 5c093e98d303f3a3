//! C20: what the server does on its own: start, end of sessions, backups.
use super::calls::*;
use super::ingest::{expect, expect_out, failures};
use crate::report::*;

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
fn camel(p: &str) -> String {
    p.split('_').map(|w| w[..1].to_uppercase() + &w[1..]).collect()
}
const PARTS: &[&str] = &["metadata", "storage"];

const LIMITS: &[&str] = &["l0_max_parts", "l1_max_size_bytes", "level_size_multiplier", "levels", "max_log_length_bytes", "merge_array_page_size", "merge_array_size", "merge_chunk_size", "merge_data_page_size_limit_bytes", "merge_max_l1_part_size_bytes", "merge_max_page_size", "merge_part_size_multiplier", "merge_row_group_values_limit"];

/// the settings saved keep the secrets there are and have two different new ones for the others
fn secrets(saved: &str, a: &str, r: &str) -> bool {
    let get = |f: &str| saved.split(&format!("{f}: ")).nth(1).and_then(|x| x.split([',', '}']).next()).unwrap_or("").to_string();
    let (x, y) = (get("auth_access_token"), get("auth_refresh_token"));
    let ok = |was: &str, is: &str| if was == "\"\"" { is.starts_with("hex::encode(k") } else { is == was };
    ok(a, &x) && ok(r, &y) && x != y && saved.matches("..").count() == 1
}
fn start(ck: &mut Ck) {
    if let Some(f) = ck.func("cmd::get_random_key64") {
        let mut w = World::new(PARTS);
        w.also = vec!["try_fill", "fill", "fill_bytes", "try_fill_bytes"];
        let d = w.run(ck, f, None, &["rng"]);
        ck.req("start", d.log.len() == 1 && d.log[0].starts_with("rng."), "get_random_key64", (&d.at.0, d.at.1), format!("a key must be filled from the random source once, is {:?}", d.log));
    }
    if let Some(f) = ck.func("cmd::init_fs") {
        let mk = || {
            let mut w = World::new(PARTS);
            w.also = vec!["create_dir_all"];
            w
        };
        let d = mk().run(ck, f, None, &["cfg"]);
        let want: Vec<String> = ["storage", "md", "backup_tmp", "backups", "recovers"].iter().map(|p| format!("create_dir_all(join(cfg.data.path, \"data/{p}\"))")).collect();
        expect(ck, "start", "init_fs", &d, "Ok(())", &want, &[]);
        failures(ck, "init_fs", f, &mk, "none", &["cfg"], &d);
    }
    if let Some(f) = ck.func("cmd::init_storage") {
        let mk = || World::new(PARTS);
        let table = |name: &str, cfg: &str, repl: bool| {
            let mut fields: Vec<String> = LIMITS.iter().map(|l| if *l == "merge_data_page_size_limit_bytes" { format!("{l}: Some(cfg.{cfg}.{l})") } else { format!("{l}: cfg.{cfg}.{l}") }).collect();
            fields.push("index_cols: 2".into());
            fields.push(format!("is_replacing: {repl}"));
            fields.sort();
            format!("db.create_table(\"{name}\", Options{{{}}})", fields.join(", "))
        };
        let mut want = vec![table("events", "events_table", false)];
        want.extend((0..5).map(|g| table(&format!("group_{g}"), "group_table", true)));
        let d = mk().run(ck, f, None, &["db", "cfg"]);
        expect(ck, "start", "init_storage", &d, "Ok(())", &want, &[]);
        let d2 = mk().with("create_table", "Err(storage::error::StoreError::AlreadyExists(t))").run(ck, f, None, &["db", "cfg"]);
        expect(ck, "start", "init_storage:tables exist", &d2, "Ok(())", &want, &[]);
        for (i, l) in d.log.iter().enumerate() {
            let d2 = mk().with(l, "Err(storage::error::StoreError::Internal(broken))").run(ck, f, None, &["db", "cfg"]);
            let ok = d2.out.iter().all(|o| o.starts_with("Err(") && o.contains("broken")) && d2.log.len() == i + 1;
            ck.req("failure", ok, format!("init_storage:table {i} fails"), (&d2.at.0, d2.at.1), format!("when a table cannot be created, start must fail with that, ends {:?} after {} tables", d2.out, d2.log.len()));
        }
    }
    if let Some(f) = ck.func("cmd::init_settings") {
        let set = |a: &str, r: &str| format!("Ok(metadata::settings::Settings{{auth_access_token: {a}, auth_refresh_token: {r}, ..st}})");
        let world = |ans: &str| {
            let mut w = World::new(PARTS).with("settings.load", ans).with("from_rng", "Ok(rng)").with("get_random_key64", "k#");
            w.also = vec!["from_rng"];
            w.shut = vec!["get_random_key64"];
            w
        };
        for (a, r) in [("\"\"", "\"\""), ("\"a\"", "\"\""), ("\"\"", "\"r\""), ("\"a\"", "\"r\"")] {
            let ans = set(a, r);
            let d = world(&ans).run(ck, f, None, &["md"]);
            let what = format!("init_settings:{}", match (a, r) { ("\"\"", "\"\"") => "no secret", (_, "\"\"") => "access secret only", ("\"\"", _) => "refresh secret only", _ => "both secrets" });
            // what is saved last
            let saved = d.log.iter().rev().find(|l| l.starts_with("settings.save(")).cloned().unwrap_or_default();
            let ok = secrets(&saved, a, r) && d.out.len() == 1 && d.out.contains("Ok(())");
            ck.req("start", ok, format!("{what}:saved"), (&d.at.0, d.at.1), format!("{what}: the settings saved must keep the secrets there are and have new ones for the others, saved {saved}, ends {:?}", d.out));
        }
        for (what, ans) in [("no settings", "Err(metadata::error::MetadataError::NotFound(n))"), ("settings unreadable", "Err(metadata::error::MetadataError::Other(n))")] {
            let mut w = world(ans).with("default", &set("\"\"", "\"\"")[3..].trim_end_matches(')').to_string());
            w.shut.push("default");
            let d = w.run(ck, f, None, &["md"]);
            if what == "no settings" {
                let saved = d.log.iter().rev().find(|l| l.starts_with("settings.save(")).cloned().unwrap_or_default();
                ck.req("start", d.out.iter().all(|o| o == "Ok(())") && secrets(&saved, "\"\"", "\"\""), "init_settings:first start", (&d.at.0, d.at.1), format!("the first start must save settings with two new secrets, saves {saved}, ends {:?}", d.out));
            } else {
                expect_out(ck, "start", "init_settings:settings unreadable", &d, "n", &["settings.save"]);
            }
        }
    }
    if let Some(f) = ck.func("cmd::init_platform") {
        let mut w = World::new(PARTS);
        w.shut = vec!["attach_routes"];
        let d = w.run(ck, f, None, &["md", "db", "router", "cfg"]);
        let props = |p: &str| format!("Properties{{md: md, props: md.{p}, prov: PropertiesProvider{{db: db, metadata: md}}}}");
        let groups = (0..5).map(|i| props(&format!("group_properties[{i}]"))).collect::<Vec<_>>().join(", ");
        let mut parts: Vec<String> = ["accounts", "bookmarks", "custom_events", "dashboards", "events", "groups", "reports"].iter().map(|p| format!("{p}: {}{{prov: md.{p}}}", camel(p))).collect();
        parts.push("auth: Auth{cfg: cfg, md: md}".into());
        parts.push("backups: Backups{prov: md}".into());
        parts.push(format!("event_properties: {}", props("event_properties")));
        parts.push(format!("group_properties: [{groups}]"));
        parts.push("organizations: Organizations{md: md}".into());
        parts.push("projects: Projects{cfg: cfg, md: md}".into());
        parts.push("settings: SettingsProvider{prov: md.settings}".into());
        for p in ["event_records", "event_segmentation", "funnel", "group_records"] {
            let c = camel(p);
            parts.push(format!("{p}: {c}{{md: md, prov: {c}Provider{{db: db, metadata: md}}}}"));
        }
        parts.sort();
        let out = format!("Ok(attach_routes(router, md, PlatformProvider{{{}}}, cfg))", parts.join(", "));
        expect(ck, "start", "init_platform", &d, &out, &[], &[]);
    }
    if let Some(f) = ck.func("cmd::command::server::start") {
        let world = |acc: &str| {
            let mut w = World::new(PARTS)
                .with("metadata::rocksdb::new", "Ok(rocks)")
                .with("open", "Ok(db)")
                .with("try_new", "Ok(md)")
                .with("accounts.get_by_id", acc)
                .with("settings.load", "Ok(st#)")
                .with("accounts.create", "Ok(metadata::accounts::Account{id: accid, force_update_email: true, force_update_password: true, email: mail})")
                .with("init_ingester", "Ok(ri)")
                .with("init_platform", "Ok(rp)")
                .with("make_password_hash", "Ok(hash)")
                .with("bind", "Ok(listener)")
                .with("serve", "Ok(served)");
            w.also = vec!["bind", "serve"];
            w.shut = vec!["init_fs", "init_settings", "init_storage", "init_metrics", "init_session_cleaner", "init", "init_ingester", "init_platform", "make_password_hash"];
            w.pure_ = vec![("exists", "true"), ("into_make_service_with_connect_info", "@"), ("collect", "pwd")];
            w
        };
        for (what, acc) in [("admin exists", "Ok(metadata::accounts::Account{id: 1, force_update_email: false, force_update_password: false, email: mail})"), ("first start", "Err(metadata::error::MetadataError::NotFound(n))")] {
            let d = world(acc).run(ck, f, None, &["cfg"]);
            let first = what == "first start";
            let mut want = strs(&["init_fs(cfg)", "new(join(cfg.data.path, \"data/md\"))", "open(join(cfg.data.path, \"data/storage\"), Options)", "try_new(new(join(cfg.data.path, \"data/md\")), db)", "init_settings(md)", "init_storage(db, cfg)", "init_session_cleaner(md, db, cfg)", "init(md, db, cfg)", "accounts.get_by_id(1)", "init_ingester(cfg.data.geo_city_path, cfg.data.ua_db_path, md, db, new())", "init_platform(md, db, ri, cfg)", "bind(cfg.server.host)", "serve(listener, rp)"]);
            if first {
                let pwd = "map(.sample_iter(rand::thread_rng(), rand::distributions::Alphanumeric) => char::from(elem(.sample_iter(rand::thread_rng(), rand::distributions::Alphanumeric))))";
                want.extend(strs(&["settings.load()", "settings.load()"]));
                want.push(format!("settings.save(st1{{..auth_admin_default_password: {pwd}}})"));
                want.push(format!("make_password_hash({pwd})"));
                want.push("accounts.create(CreateAccountRequest{created_by: 1, email: \"admin@admin.com\", force_update_email: true, force_update_password: true, name: Some(\"admin\"), organizations: None, password_hash: hash, projects: None, role: Some(Role::Admin), teams: None})".into());
                want.push("organizations.create(CreateOrganizationRequest{created_by: accid, name: \"My Organization\"})".into());
            }
            expect(ck, "start", what, &d, "Ok(served)", &want, &["init_fs", "new(join", "try_new", "init_settings", "init_storage", "init_session_cleaner", "init(", "serve"]);
            let mk = || world(acc);
            failures(ck, what, f, &mk, "none", &["cfg"], &d);
            let mut w = world(acc);
            w.pure_[0] = ("exists", "false");
            let d = w.run(ck, f, None, &["cfg"]);
            expect_out(ck, "failure", &format!("{what}:no user interface"), &d, "FileNotFound", &["accounts.create", "serve", "bind"]);
        }
        let d = world("Err(metadata::error::MetadataError::Other(unreadable))").run(ck, f, None, &["cfg"]);
        expect_out(ck, "failure", "admin unreadable", &d, "unreadable", &["accounts.create", "settings.save", "serve"]);
        {
        }
    }
}

fn sessions(ck: &mut Ck) {
    let Some(f) = ck.func("cmd::init_session_cleaner") else { return };
    let world = |len: Option<&'static str>| {
        let mut w = World::new(PARTS)
            .with("projects.list", "Ok(metadata::metadata::ListResponse{data: [metadata::projects::Project{id: p1, session_duration_seconds: 100}, metadata::projects::Project{id: p2, session_duration_seconds: 100}], meta: none})")
            .with("deserialize", "Ok(metadata::sessions::Session{user_id: su#, created_at: st})")
            .with("prefix_iterator", "[Ok((key, bytes))]")
            .with("next_record_sequence", "Ok(rec#)")
            .with("events.get_by_name", "Ok(metadata::events::Event{id: endid})")
            .with("event_properties.get_by_name", "Ok(lenprop)");
        w.also = vec!["delete", "commit", "prefix_iterator"];
        w.open = vec!["check_for_deletion", "make_data_key", "into_iter", "project_ns"];
        w.pure_ = vec![("is_prefix_of", "true"), ("from_utf8", "Ok(@)"), ("to_std", "Ok(@)")];
        if let Some(l) = len {
            w.pure_.push(("num_seconds((now() - st))", l));
        }
        w.rounds = 1;
        w
    };
    for len in ["99", "100", "101"] {
        let d = world(Some(len)).run(ck, f, None, &["md", "db", "cfg"]);
        let mut want = strs(&["projects.list()"]);
        for i in 1..=2 {
            want.push(format!("db.prefix_iterator(fmt(\"projects/{{}}/sessions/data\", p{i}))"));
            want.push("deserialize(bytes)".into());
            if len != "99" {
                want.push(format!("events.next_record_sequence(p{i})"));
                want.push(format!("events.get_by_name(p{i}, \"Session End\")"));
                want.push(format!("event_properties.get_by_name(p{i}, \"Session Length\")"));
                let none: String = (1..5).map(|g| format!("new(\"group_{g}\", Value::Int64(None)), ")).collect();
                want.push(format!("db.insert(\"events\", [new(\"project_id\", Value::Int64(Some(p{i}))), new(\"group_0\", Value::Int64(Some(su{i}))), {none}new(\"created_at\", Value::Timestamp(Some(ms(now())))), new(\"event_id\", Value::Int64(Some(rec{i}))), new(\"event\", Value::Int64(Some(endid))), new(column_name(lenprop), Value::Timestamp(Some({len})))])"));
                want.push(format!("db.delete(concat([concat([b\"projects/\", p{i}, b\"/\", b\"sessions\"]), b\"/data\", su{i}]))"));
            }
            want.push("db.commit()".into());
        }
        expect(ck, "session", &format!("session of 100 s after {len} s"), &d, "Ok(())", &want, &["db.insert", "db.delete"]);
    }
}
fn backups(ck: &mut Ck) {
    if let Some(f) = ck.func("cmd::backup::truncate_to_minute") {
        let mut w = World::new(PARTS);
        w.pure_ = vec![("with_nanosecond(dt, 0)", "Some(ns)"), ("with_second(ns, 0)", "Some(m)"), ("with_second(dt, 0)", "Some(s)"), ("with_nanosecond(s, 0)", "Some(m)")];
        let d = w.run(ck, f, None, &["dt"]);
        expect(ck, "backup", "truncate_to_minute", &d, "m", &[], &[]);
    }
    let Some(f) = ck.func("cmd::backup::init") else { return };
    let bk = |id: &str, st: &str, at: &str| format!("metadata::backups::Backup{{id: {id}, status: metadata::backups::Status::{st}, created_at: {at}}}");
    let world = |set: &str, list: &[String], next: &'static str| {
        let mut w = World::new(PARTS)
            .with("settings.load", &format!("Ok(metadata::settings::Settings{{{set}, ..st}})"))
            .with("backups.list", &format!("Ok(metadata::metadata::ListResponse{{data: [{}], meta: none}})", list.join(", ")))
            .with("run_backup", "Ok(metadata::backups::Backup{id: done, ..bk})")
            .with("create_backup", "Ok(metadata::backups::Backup{id: new_, ..bk})")
            .with("find_next_occurrence", &format!("Ok({next})"));
        w.also = vec!["remove_file", "find_next_occurrence"];
        w.shut = vec!["run_backup", "create_backup", "truncate_to_minute"];
        w.pure_ = vec![("truncate_to_minute", "@"), ("naive_utc", "@"), ("and_utc", "@"), ("timestamp", "@"), ("from_timestamp", "Some(@)"), ("now", "100"), ("parse", "Ok(@)"), ("exists", "true")];
        w.rounds = 1;
        w
    };
    let args = ["md", "db", "cfg"];
    let on = |i: &str| format!("backup_enabled: true, backup_schedule_interval: metadata::settings::BackupScheduleInterval::{i}, backup_schedule_start_hour: hour");
    let st = |i: &str| format!("st{{..backup_enabled: true, backup_schedule_interval: metadata::settings::BackupScheduleInterval::{i}{{}}, backup_schedule_start_hour: hour}}");
    let run = |b: &str, i: &str| format!("run_backup({b}, db, md, cfg, {})", st(i));
    let txt_bk = |id: &str, s: &str, at: &str| format!("Backup{{created_at: {at}, id: {id}, status: Status::{s}}}");
    let seen = |ck: &mut Ck, what: &str, d: &Done, want: &[String]| {
        let ok = d.log == want;
        ck.req("backup", ok, what.to_string(), (&d.at.0, d.at.1), format!("{what}: expected {want:?}, found {:?}", d.log));
    };
    let l = || "backups.list()".to_string();
    let (ld, cron) = ("settings.load()".to_string(), "fmt(\"0 {} * * *\", hour).find_next_occurrence(100, true)".to_string());
    let d = world("backup_enabled: false", &[bk("b1", "Idle", "40")], "100").run(ck, f, None, &args);
    seen(ck, "backups disabled", &d, &[l(), ld.clone()]);
    for fails in [false, true] {
        let w = |list: &[String], next| {
            let w = world(&on("Daily"), list, next);
            if fails { w.with("run_backup", "Err(broken)") } else { w }
        };
        let end = |id: &str| if fails { format!("backups.update_status({id}, Status::Failed(broken))") } else { "backups.update_status(done, Status::Completed)".into() };
        let x = if fails { " and fails" } else { "" };
        for list in [vec![("b1", "Idle", "40")], vec![("b1", "Completed", "100"), ("b2", "Idle", "40")]] {
            let b: Vec<String> = list.iter().map(|t| bk(t.0, t.1, t.2)).collect();
            let t = list[list.len() - 1];
            let d = w(&b, "100").run(ck, f, None, &args);
            seen(ck, &format!("a backup is asked for{x}, {} listed", b.len()), &d, &[l(), ld.clone(), l(), run(&txt_bk(t.0, t.1, t.2), "Daily"), end(t.0)]);
        }
        for (what, list) in [("none", vec![]), ("earlier ones", vec![bk("b1", "Completed", "99"), bk("b2", "Failed(e)", "40")])] {
            let d = w(&list, "100").run(ck, f, None, &args);
            seen(ck, &format!("a backup is due{x}, {what} taken"), &d, &[l(), ld.clone(), l(), cron.clone(), l(), "create_backup(md)".into(), run("bk{..id: new_}", "Daily"), end("new_")]);
        }
    }
    for (what, list) in [("first", vec![bk("b1", "Completed", "100"), bk("b2", "Completed", "40")]), ("last", vec![bk("b1", "Completed", "40"), bk("b2", "Failed(e)", "100")])] {
        let d = world(&on("Daily"), &list, "100").run(ck, f, None, &args);
        seen(ck, &format!("the due backup is taken, listed {what}"), &d, &[l(), ld.clone(), l(), cron.clone(), l()]);
    }
    let d = world(&on("Daily"), &[], "101").run(ck, f, None, &args);
    seen(ck, "no backup is due", &d, &[l(), ld.clone(), l(), cron.clone()]);
    for (i, c) in [("Hourly", "\"0 * * * *\""), ("Daily", "fmt(\"0 {} * * *\", hour)"), ("Weekly", "fmt(\"0 {} * * 0\", hour)"), ("Monthly", "fmt(\"0 {} 1 * *\", hour)"), ("Yearly", "fmt(\"0 {} 1 1 *\", hour)")] {
        let d = world(&on(i), &[], "101").run(ck, f, None, &args);
        seen(ck, &format!("schedule {i}"), &d, &[l(), ld.clone(), l(), format!("{c}.find_next_occurrence(100, true)")]);
    }
    // what a restart finds
    for left in [true, false] {
        let mut w = world("backup_enabled: false", &[bk("b1", "InProgress(5)", "40"), bk("b2", "Completed", "40"), bk("b3", "InProgress(0)", "40"), bk("b4", "Idle", "40"), bk("b5", "Failed(e)", "40")], "100");
        if !left {
            w.pure_.retain(|x| x.0 != "exists");
            w.pure_.push(("exists", "false"));
        }
        let d = w.run(ck, f, None, &args);
        let mut want = vec![l()];
        for b in ["b1", "b3"] {
            if left {
                want.push(format!("remove_file(join(join(cfg.data.path, \"data/backup_tmp\"), {b}))"));
            }
            want.push(format!("backups.update_status({b}, Status::Failed(\"server restarted\"))"));
        }
        want.push(ld.clone());
        seen(ck, &format!("a restart with backups in progress, {}", if left { "files left" } else { "no files" }), &d, &want);
    }
    // one backup
    let Some(f) = ck.func("cmd::backup::create_backup") else { return };
    let mk = || {
        let mut w = World::new(PARTS).with("settings.load", "Ok(set)").with("from_settings", "req");
        w.shut = vec!["from_settings"];
        w
    };
    let d = mk().run(ck, f, None, &["md"]);
    expect(ck, "backup", "create_backup", &d, "Ok(backups.create(req))", &strs(&["settings.load()", "backups.create(req)"]), &[]);
    failures(ck, "create_backup", f, &mk, "none", &["md"], &d);
    let Some(f) = ck.func("cmd::backup::run_backup") else { return };
    let tmp = "join(join(cfg.data.path, \"data/backup_tmp\"), b1)";
    for prov in ["Local(path)", "GCP(g)", "S3(s)"] {
        let mk = || {
            let mut w = World::new(PARTS);
            w.shut = vec!["backup_to_tmp", "backup_local", "backup_gcp"];
            w
        };
        let b = format!("metadata::backups::Backup{{id: b1, provider: metadata::backups::Provider::{prov}}}");
        let tb = format!("Backup{{id: b1, provider: Provider::{prov}}}");
        let args = [b.as_str(), "db", "md", "cfg", "set"];
        let mut d = mk().run(ck, f, None, &args);
        d.log.retain(|l| l != "backups.update_status(b1, Status::InProgress(?))");
        for l in d.log.iter_mut() {
            if let Some(i) = l.find(", closure#") {
                l.replace_range(i.., ")");
            }
        }
        let what = format!("run_backup:{}", &prov[..prov.find('(').unwrap_or(0)]);
        if prov.starts_with("S3") {
            expect_out(ck, "backup", &what, &d, "BackupError", &["backup_to_tmp", "Completed"]);
            continue;
        }
        let mut want = vec![format!("backup_to_tmp(db, {tb}, {tmp})")];
        if prov.starts_with("Local") {
            want.push(format!("backup_local({tb}, cfg, {tmp})"));
        } else {
            want.push("backups.update_status(b1, Status::Uploading)".into());
            want.push(format!("backup_gcp({tb}, set, {tmp})"));
        }
        expect(ck, "backup", &what, &d, &format!("Ok({tb})"), &want, &["backup_to_tmp", "backups.update_status", "backup_gcp", "backup_local"]);
        for part in ["backup_to_tmp", "backup_local", "backup_gcp", "backups.update_status(b1, Status::Uploading)"] {
            if !d.log.iter().any(|l| l.starts_with(part)) {
                continue;
            }
            let d2 = mk().with(part, "Err(broken)").run(ck, f, None, &args);
            let last = d2.log.last().cloned().unwrap_or_default();
            ck.req("failure", d2.out.iter().all(|o| o == "Err(broken)") && last.starts_with(part), format!("{what}:{part} fails"), (&d2.at.0, d2.at.1), format!("{what}: when {part} fails, the backup must fail with that and nothing may follow, ends {:?} after {:?}", d2.out, d2.log));
        }
    }
    files(ck);
}
fn files(ck: &mut Ck) {
    if let Some(f) = ck.func("cmd::backup::backup_to_tmp") {
        for enc in ["true", "false"] {
            let mk = || {
                let mut w = World::new(PARTS).with("create", "Ok(file)");
                w.also = vec!["create", "start_file", "finish"];
                w
            };
            let b = format!("metadata::backups::Backup{{id: b1, is_encrypted: {enc}, password: Some(pw)}}");
            let args = ["db", b.as_str(), "tmp", "progress"];
            let mut d = mk().run(ck, f, None, &args);
            let opts = "unix_permissions(large_file(compression_method(default(), CompressionMethod::Deflated), true), 493)";
            let opts = if enc == "true" { format!("with_aes_encryption({opts}, AesMode::Aes128, pw)") } else { opts.to_string() };
            let full = d.log.iter().position(|l| l.starts_with("db.full_backup(file, "));
            if let Some(i) = full {
                d.log[i] = "db.full_backup(file)".into();
            }
            let want = ["create(tmp)".to_string(), format!("file.start_file(\"backup\", {opts})"), "db.full_backup(file)".into(), "file.finish()".into()];
            let what = format!("archive:{}", if enc == "true" { "encrypted" } else { "plain" });
            expect(ck, "backup", &what, &d, "Ok(())", &want, &["create", "file.start_file", "db.full_backup", "file.finish"]);
            let labels: Vec<String> = d.log.iter().map(|l| l.split('(').next().unwrap_or(l).to_string()).collect();
            for (i, l) in labels.iter().enumerate() {
                let d2 = mk().with(l, "Err(broken)").run(ck, f, None, &args);
                ck.req("failure", d2.out.iter().all(|o| o == "Err(broken)") && d2.log.len() == i + 1, format!("{what}:{l} fails"), (&d2.at.0, d2.at.1), format!("{what}: when {l} fails the archive must fail, ends {:?} after {:?}", d2.out, d2.log));
            }
        }
    }
    if let Some(f) = ck.func("cmd::backup::backup_local") {
        let mk = || {
            let mut w = World::new(PARTS);
            w.also = vec!["rename"];
            w
        };
        let args = ["bk", "cfg", "tmp"];
        let d = mk().run(ck, f, None, &args);
        let want = "rename(tmp, join(join(cfg.data.path, \"data/backups\"), format(bk.created_at, \"%Y-%m-%dT%H:00:00.zip\")))";
        expect(ck, "backup", "backup_local", &d, "Ok(())", &strs(&[want]), &[]);
        failures(ck, "backup_local", f, &mk, "none", &args, &d);
    }
    if let Some(f) = ck.func("cmd::backup::backup_gcp") {
        let mk = |n: &str| {
            let mut w = World::new(PARTS).with("put_multipart", "Ok(up)").with("build", "Ok(gcs)").with("open", "Ok(file)").with("up.finish", "Ok(res)").with("file.read", &format!("Ok({n})"));
            w.also = vec!["remove_file", "put_multipart", "open", "build", "write", "finish", "read", "with_bucket_name", "with_service_account_key"];
            w.rounds = 1;
            w
        };
        let args = ["bk", "set", "tmp"];
        let pre = strs(&[".with_bucket_name(set.backup_provider_gcp_bucket)", ".with_service_account_key(set.backup_provider_gcp_key)", ".build()", "gcs.put_multipart(path(bk))", ".read(true)", ".open(tmp)", "file.read([ | 0])"]);
        let d = mk("0").run(ck, f, None, &args);
        let mut want = pre.clone();
        want.extend(strs(&["up.finish()", "remove_file(tmp)"]));
        expect(ck, "backup", "backup_gcp:end of file", &d, "Ok(())", &want, &["file.read", "up.finish", "remove_file"]);
        for (i, l) in d.log.iter().enumerate() {
            if l.starts_with(".with_") || l.starts_with(".read(") {
                continue;
            }
            let d2 = mk("0").with(l.split('(').next().unwrap_or(l), "Err(broken)").run(ck, f, None, &args);
            ck.req("failure", d2.out.iter().all(|o| o == "Err(broken)") && d2.log.len() == i + 1, format!("backup_gcp:{l} fails"), (&d2.at.0, d2.at.1), format!("when {l} fails the upload must fail, ends {:?} after {:?}", d2.out, d2.log));
        }
        let d = mk("5").run(ck, f, None, &args);
        let mut want = pre;
        want.push("up.write([ | 0][Range{end: 5}])".into());
        // the next read may stand at the end of the same round
        let whole = |log: &[String]| log.len() == want.len() + 1 && log[..want.len()] == want[..] && log.last().is_some_and(|l| l.starts_with("file.read("));
        ck.req("backup", d.log == want || whole(&d.log), "backup_gcp:a piece read", (&d.at.0, d.at.1), format!("a piece read must be uploaded whole before the next is read, found {:?}", d.log));
    }
}
/// what is recorded of a backup
fn records(ck: &mut Ck) {
    if let Some(f) = ck.func("metadata::backups::CreateBackupRequest::from_settings") {
        for (p, want) in [
            ("Local", "Provider::Local(st.backup_provider_local_path)"),
            ("S3", "Provider::S3(S3Provider{bucket: st.backup_provider_s3_bucket, path: st.backup_provider_s3_path, region: st.backup_provider_s3_region})"),
            ("GCP", "Provider::GCP(GCPProvider{bucket: st.backup_provider_gcp_bucket, path: st.backup_provider_gcp_path})"),
        ] {
            for enc in ["true", "false"] {
                let set = format!("metadata::settings::Settings{{backup_provider: metadata::settings::BackupProvider::{p}, backup_encryption_enabled: {enc}, ..st}}");
                let d = World::new(&["storage"]).run(ck, f, None, &[&set]);
                let pw = if enc == "true" { "Some(st.backup_encryption_password)" } else { "None" };
                let out = format!("CreateBackupRequest{{is_encrypted: {enc}, password: {pw}, provider: {want}, status: Status::Idle}}");
                expect(ck, "record", &format!("from_settings:{p}, encrypted {enc}"), &d, &out, &[], &[]);
            }
        }
    }
    if let Some(f) = ck.func("metadata::backups::Backup::path") {
        for (p, base) in [("Local(base)", "base"), ("S3(metadata::backups::S3Provider{path: base})", "base"), ("GCP(metadata::backups::GCPProvider{path: base})", "base")] {
            let me = format!("metadata::backups::Backup{{provider: metadata::backups::Provider::{p}, created_at: at}}");
            let mut w = World::new(&["storage"]);
            w.pure_ = vec![("into_os_string", "@"), ("into_string", "Ok(@)")];
            let d = w.run(ck, f, Some(&me), &[]);
            expect(ck, "record", &format!("path:{p}"), &d, &format!("join({base}, format(at, \"%Y-%m-%dT%H:00:00.zip\"))"), &[], &[]);
        }
    }
    if let Some(f) = ck.func("metadata::backups::Backups::create") {
        let bk = |st: &str| format!("metadata::backups::Backup{{status: metadata::backups::Status::{st}}}");
        for (what, req, list, ok) in [
            ("none listed", "Idle", vec![], true),
            ("others listed", "Idle", vec![bk("Completed"), bk("InProgress(5)"), bk("Failed(e)"), bk("Uploading")], true),
            ("an idle one listed first", "Idle", vec![bk("Idle"), bk("Completed")], false),
            ("an idle one listed last", "Idle", vec![bk("Completed"), bk("Idle")], false),
        ] {
            let mk = || {
                let mut w = World::new(&["storage"]).with("list_", &format!("Ok(metadata::metadata::ListResponse{{data: [{}], meta: none}})", list.join(", "))).with("next_seq", "Ok(seq)").with("serialize", "Ok(bytes)");
                w.shut = vec!["list_", "next_seq", "serialize"];
                w.also = vec!["put", "commit"];
                w
            };
            let r = format!("metadata::backups::CreateBackupRequest{{provider: prov, password: pw, is_encrypted: enc, status: metadata::backups::Status::{req}}}");
            let d = mk().run(ck, f, Some("metadata::backups::Backups{db: db}"), &[&r]);
            let b = "Backup{created_at: now(), id: seq, is_encrypted: enc, password: pw, provider: prov, status: Status::Idle, updated_at: None}";
            let what = format!("create:{what}");
            if ok {
                let want = [".list_(transaction(db))".to_string(), "next_seq(transaction(db), concat([b\"system/backups\", b\"id_seq\"]))".into(), format!("serialize({b})"), "db.put(concat([b\"system/backups\", b\"/data/\", seq]), bytes)".into(), "db.commit()".into()];
                expect(ck, "record", &what, &d, &format!("Ok({b})"), &want, &[".list_", "next_seq", "db.put", "db.commit"]);
                failures(ck, &what, f, &mk, "metadata::backups::Backups{db: db}", &[&r], &d);
            } else {
                expect_out(ck, "record", &what, &d, "AlreadyExists", &["put", "commit"]);
            }
        }
    }
    if let Some(f) = ck.func("platform::backups::Backups::backup") {
        for on in ["true", "false"] {
            let mk = || {
                let mut w = World::new(PARTS).with("settings.load", &format!("Ok(metadata::settings::Settings{{backup_enabled: {on}, ..st}})")).with("from_settings", "req").with("backups.create", "Ok(bk)");
                w.shut = vec!["check_permission", "from_settings"];
                w
            };
            let d = mk().run(ck, f, Some("platform::backups::Backups{prov: md}"), &["ctx"]);
            let what = format!("backup now, enabled {on}");
            if on == "true" {
                let want = strs(&["ctx.check_permission(Permission::ManageServer)", "settings.load()", "backups.create(req)"]);
                let ok = d.log == want && d.out.iter().all(|o| o.starts_with("Ok(Backup{"));
                ck.req("record", ok, what.clone(), (&d.at.0, d.at.1), format!("{what}: a backup must be asked for with the settings, found {:?} ending {:?}", d.log, d.out));
                failures(ck, &what, f, &mk, "platform::backups::Backups{prov: md}", &["ctx"], &d);
            } else {
                expect_out(ck, "record", &what, &d, "Forbidden", &["backups.create"]);
            }
        }
    }
}
/// the configuration file's values reach the fields of the same name
fn config(ck: &mut Ck) {
    let Some(f) = ck.impl_fn("cmd", "Config", "TryInto", "Config", "try_into") else { return };
    let same = |n: &str, b: &str, fs: &[&str]| {
        let mut fs: Vec<String> = fs.iter().map(|f| format!("{f}: c.{b}.{f}")).collect();
        fs.sort();
        format!("{n}{{{}}}", fs.join(", "))
    };
    for (l, up) in [("Trace", "TRACE"), ("Debug", "DEBUG"), ("Info", "INFO"), ("Warn", "WARN"), ("Error", "ERROR")] {
        let me = format!("cmd::config::Config{{log: cmd::config::Log{{level: cmd::config::LogLevel::{l}}}, ..c}}");
        let mut w = World::new(PARTS);
        w.pure_ = vec![("parse", "Ok(@)"), ("from_std", "Ok(@)")];
        let d = w.run(ck, f, Some(&me), &[]);
        let parts = [
            format!("auth: {}", same("Auth", "auth", &["access_token_duration", "refresh_token_duration"])),
            format!("data: {}", same("Data", "data", &["geo_city_path", "path", "ua_db_path", "ui_path"])),
            format!("events_table: {}", same("Table", "events_table", LIMITS)),
            format!("group_table: {}", same("Table", "group_table", LIMITS)),
            format!("log: Log{{level: Level::{up}}}"),
            format!("misc: {}", same("Misc", "misc", &["project_default_session_duration", "session_cleaner_interval"])),
            "server: Server{host: c.server.host}".to_string(),
        ];
        let out = format!("Ok(Config{{{}}})", parts.join(", "));
        expect(ck, "config", &format!("configuration, log level {l}"), &d, &out, &[], &[]);
    }
    for d in ["auth.access_token_duration", "auth.refresh_token_duration", "misc.session_cleaner_interval", "misc.project_default_session_duration"] {
        for part in ["parse", "from_std"] {
            let mut w = World::new(PARTS);
            let t: &'static str = Box::leak(format!("{part}(c.{d})").into_boxed_str());
            w.pure_ = vec![(t, "Err(broken)"), ("parse", "Ok(@)"), ("from_std", "Ok(@)")];
            let x = w.run(ck, f, Some("c"), &[]);
            ck.req("config", x.out.len() == 1 && x.out.contains("Err(broken)"), format!("{d}:{part}"), (&x.at.0, x.at.1), format!("a bad {d} must be refused, ends {:?}", x.out));
        }
    }
}
pub fn check(ck: &mut Ck) {
    ck.rule("the functions the server runs on its own, interpreted case by case against parts (metadata, storage, files, clock) that answer symbolically: the effects, with their arguments, are exactly the listed ones; a failing part ends them and nothing follows");
    start(ck);
    sessions(ck);
    backups(ck);
    config(ck);
    records(ck);
}
