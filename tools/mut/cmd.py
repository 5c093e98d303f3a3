C = 'src/cmd/src/'
LB = C+'lib.rs'
keep('cmd1', LB, '''    fs::create_dir_all(cfg.data.path.join(DATA_PATH_STORAGE))?;
    fs::create_dir_all(cfg.data.path.join(DATA_PATH_METADATA))?;
    fs::create_dir_all(cfg.data.path.join(DATA_PATH_BACKUP_TMP))?;
    fs::create_dir_all(cfg.data.path.join(DATA_PATH_BACKUPS))?;
    fs::create_dir_all(cfg.data.path.join(DATA_PATH_RECOVERS))?;
    Ok(())
''', '''    for dir in [
        DATA_PATH_STORAGE,
        DATA_PATH_METADATA,
        DATA_PATH_BACKUP_TMP,
        DATA_PATH_BACKUPS,
        DATA_PATH_RECOVERS,
    ] {
        fs::create_dir_all(cfg.data.path.join(dir))?;
    }
    Ok(())
''')
keep('cmd2', LB, '''    match db.create_table(TABLE_EVENTS.to_string(), events_table) {
        Ok(_) => {}
        Err(err) => match err {
            StoreError::AlreadyExists(_) => {}
            other => return Err(other.into()),
        },
    }
''', '''    match db.create_table(TABLE_EVENTS.to_string(), events_table) {
        Ok(_) | Err(StoreError::AlreadyExists(_)) => {}
        Err(other) => return Err(other.into()),
    }
''')
keep('cmd3', LB, '''        match db.create_table(name.clone(), tbl) {
            Ok(_) => {}
            Err(err) => match err {
                StoreError::AlreadyExists(_) => {}
                other => return Err(other.into()),
            },
        }
''', '''        if let Err(err) = db.create_table(name, tbl) {
            if !matches!(err, StoreError::AlreadyExists(_)) {
                return Err(err.into());
            }
        }
''')
keep('cmd4', LB, '''    let mut track_transformers = Vec::new();

    info!("initializing ua parser...");
    let ua_parser = UserAgentParser::from_file(File::open(ua_db_path)?)
        .map_err(|e| Error::Internal(e.to_string()))?;
    let ua = user_agent::track::UserAgent::try_new(md.event_properties.clone(), ua_parser)?;
    track_transformers.push(Arc::new(ua) as Arc<dyn Transformer<Track>>);

    info!("initializing geo...");
    let city_rdr = maxminddb::Reader::open_readfile(geo_city_path)?;
    let geo = geo::track::Geo::try_new(md.event_properties.clone(), city_rdr)?;
    track_transformers.push(Arc::new(geo) as Arc<dyn Transformer<Track>>);
''', '''    info!("initializing ua parser...");
    let file = File::open(ua_db_path)?;
    let ua_parser = match UserAgentParser::from_file(file) {
        Ok(parser) => parser,
        Err(e) => return Err(Error::Internal(e.to_string())),
    };
    let ua: Arc<dyn Transformer<Track>> = Arc::new(user_agent::track::UserAgent::try_new(
        md.event_properties.clone(),
        ua_parser,
    )?);

    info!("initializing geo...");
    let city_rdr = maxminddb::Reader::open_readfile(geo_city_path)?;
    let geo: Arc<dyn Transformer<Track>> = Arc::new(geo::track::Geo::try_new(
        md.event_properties.clone(),
        city_rdr,
    )?);
    let track_transformers = vec![ua, geo];
''')
keep('cmd5', LB, '''                        let sess_len = now - sess.created_at;
                        if sess_len.num_seconds() < project.session_duration_seconds as i64 {
                            return Ok(false);
                        }
''', '''                        let sess_len = now - sess.created_at;
                        let limit = project.session_duration_seconds as i64;
                        let expired = sess_len.num_seconds() >= limit;
                        if !expired {
                            return Ok(false);
                        }
''')
keep('cmd6', LB, '''            for project in md.projects.list().unwrap() {
                md.sessions
''', '''            let projects = md.projects.list().unwrap().data;
            for project in projects.iter() {
                md.sessions
''')
keep('cmd7', LB, '''    let mut settings = match md.settings.load() {
        Ok(cfg) => cfg,
        Err(MetadataError::NotFound(_)) => {
            let cfg = metadata::settings::Settings::default();
            md.settings.save(&cfg)?;
            cfg
        }
        Err(err) => return Err(err.into()),
    };

    if settings.auth_access_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_access_token = key;
    }
''', '''    let mut settings = match md.settings.load() {
        Ok(cfg) => cfg,
        Err(err) => match err {
            MetadataError::NotFound(_) => {
                let cfg = metadata::settings::Settings::default();
                md.settings.save(&cfg)?;
                cfg
            }
            other => return Err(other.into()),
        },
    };

    if settings.auth_access_token == "" {
        settings.auth_access_token = hex::encode(get_random_key64(&mut rng));
    }
''')
keep('cmd8', LB, '''fn init_settings(md: &Arc<MetadataProvider>) -> Result<()> {
    let mut rng = StdRng::from_rng(rand::thread_rng())?;
''', '''fn new_key(rng: &mut StdRng, current: &mut String) {
    if current.is_empty() {
        *current = hex::encode(get_random_key64(rng));
    }
}

fn init_settings(md: &Arc<MetadataProvider>) -> Result<()> {
    let mut rng = StdRng::from_rng(rand::thread_rng())?;
''', LB, '''    if settings.auth_access_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_access_token = key;
    }
    if settings.auth_refresh_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_refresh_token = key;
    }
''', '''    new_key(&mut rng, &mut settings.auth_access_token);
    new_key(&mut rng, &mut settings.auth_refresh_token);
''')
B = C+'backup.rs'
keep('cmd9', B, '''    let dt = Some(dt);
    let dt = dt
        .and_then(|d| d.with_nanosecond(0))
        .and_then(|d| d.with_second(0));
    dt.unwrap()
''', '''    dt.with_nanosecond(0).unwrap().with_second(0).unwrap()
''')
keep('cmd10', B, '''    for backup in backups {
        if matches!(backup.status, backups::Status::InProgress(_)) {
            let p = cfg
                .data
                .path
                .join(DATA_PATH_BACKUP_TMP)
                .join(backup.id.to_string());
            if p.exists() {
                fs::remove_file(p)?;
            }
            md.backups.update_status(
                backup.id,
                backups::Status::Failed("server restarted".to_string()),
            )?;
        };
    }
''', '''    let tmp = cfg.data.path.join(DATA_PATH_BACKUP_TMP);
    for backup in backups {
        let backups::Status::InProgress(_) = backup.status else {
            continue;
        };
        let p = tmp.join(backup.id.to_string());
        if p.exists() {
            fs::remove_file(&p)?;
        }
        let status = backups::Status::Failed("server restarted".to_string());
        md.backups.update_status(backup.id, status)?;
    }
''')
keep('cmd11', B, '''    hnd.await.unwrap()?;
    if matches!(backup.provider, Provider::Local(_)) {
        backup_local(&backup, &cfg, &tmp_path)?;
    } else if matches!(backup.provider, Provider::GCP(_)) {
        md.backups
            .update_status(backup.id, backups::Status::Uploading)?;
        backup_gcp(&backup, settings, &tmp_path).await?;
    };
''', '''    hnd.await.unwrap()?;
    match &backup.provider {
        Provider::Local(_) => backup_local(&backup, &cfg, &tmp_path)?,
        Provider::GCP(_) => {
            md.backups
                .update_status(backup.id, backups::Status::Uploading)?;
            backup_gcp(&backup, settings, &tmp_path).await?
        }
        Provider::S3(_) => {}
    }
''')
keep('cmd12', B, '''            let maybe_idle = backups
                .into_iter()
                .find(|b| b.status == backups::Status::Idle);
            if let Some(backup) = maybe_idle {
''', '''            let mut maybe_idle = None;
            for b in backups {
                if b.status == backups::Status::Idle {
                    maybe_idle = Some(b);
                    break;
                }
            }
            if let Some(backup) = maybe_idle {
''')
keep('cmd13', B, '''            let cron = match settings.backup_schedule_interval {
                BackupScheduleInterval::Hourly => "0 * * * *".to_string(),
                BackupScheduleInterval::Daily => {
                    format!("0 {} * * *", settings.backup_schedule_start_hour)
                }
                BackupScheduleInterval::Weekly => {
                    format!("0 {} * * 0", settings.backup_schedule_start_hour)
                }
                BackupScheduleInterval::Monthly => {
                    format!("0 {} 1 * *", settings.backup_schedule_start_hour)
                }
                BackupScheduleInterval::Yearly => {
                    format!("0 {} 1 1 *", settings.backup_schedule_start_hour)
                }
            };
''', '''            let hour = settings.backup_schedule_start_hour;
            let cron = match &settings.backup_schedule_interval {
                BackupScheduleInterval::Hourly => String::from("0 * * * *"),
                BackupScheduleInterval::Daily => format!("0 {hour} * * *"),
                BackupScheduleInterval::Weekly => format!("0 {hour} * * 0"),
                BackupScheduleInterval::Monthly => format!("0 {hour} 1 * *"),
                BackupScheduleInterval::Yearly => format!("0 {hour} 1 1 *"),
            };
''')
keep('cmd14', B, '''            let backups = md.backups.list().expect("list backups error");
            let taken = backups
                .data
                .iter()
                .any(|b| truncate_to_minute(&b.created_at.naive_utc()) == next_time);
            if taken {
                continue;
            }
''', '''            let mut taken = false;
            for b in md.backups.list().expect("list backups error").data {
                if truncate_to_minute(&b.created_at.naive_utc()) == next_time {
                    taken = true;
                }
            }
            if taken {
                continue;
            }
''')
keep('cmd15', B, '''    let options = SimpleFileOptions::default()
        .compression_method(zip::CompressionMethod::Deflated)
        .large_file(true)
        .unix_permissions(0o755);

    let options = if backup.is_encrypted {
        options.with_aes_encryption(
            AesMode::Aes128,
            backup.password.as_ref().expect("password not set"),
        )
    } else {
        options
    };
''', '''    let mut options = SimpleFileOptions::default()
        .compression_method(zip::CompressionMethod::Deflated)
        .large_file(true)
        .unix_permissions(0o755);

    if backup.is_encrypted {
        let password = backup.password.as_ref().expect("password not set");
        options = options.with_aes_encryption(AesMode::Aes128, password);
    }
''')
keep('cmd16', B, '''    let mut r = BufReader::new(tmp);
    loop {
        let mut buf = [0u8; 1024];
        let n = r.read(&mut buf)?;
        if n == 0 {
            break;
        }
        w.write(&buf[..n]);
    }
''', '''    let mut r = BufReader::new(tmp);
    let mut buf = [0u8; 1024];
    let mut n = r.read(&mut buf)?;
    while n > 0 {
        w.write(&buf[..n]);
        n = r.read(&mut buf)?;
    }
''')
S = C+'command/server.rs'
keep('cmd17', S, '''        Err(err) => match err {
            MetadataError::NotFound(_) => {
                let pwd: String''', '''        Err(err) => match err {
            ref e if !matches!(e, MetadataError::NotFound(_)) => return Err(err.into()),
            _ => {
                let pwd: String''', S, '''                acc
            }
            other => return Err(other.into()),
        },
''', '''                acc
            }
        },
''')
keep('cmd18', S, '''                let mut settings = md.settings.load()?;
                settings.auth_admin_default_password.clone_from(&pwd);
                md.settings.save(&settings)?;
''', '''                let settings = metadata::settings::Settings {
                    auth_admin_default_password: pwd.clone(),
                    ..md.settings.load()?
                };
                md.settings.save(&settings)?;
''')
keep('cmd19', S, '''    if !cfg.data.ui_path.exists() {
        return Err(Error::FileNotFound(format!(
            "ui path {:?} doesn't exist",
            cfg.data.ui_path
        )));
    }
    debug!("ui path: {:?}", cfg.data.ui_path);
''', '''    let ui_path = &cfg.data.ui_path;
    match ui_path.exists() {
        true => debug!("ui path: {:?}", ui_path),
        false => {
            return Err(Error::FileNotFound(format!("ui path {:?} doesn't exist", ui_path)));
        }
    }
''')
keep('cmd20', C+'config.rs', '''fn parse_duration(s: &str) -> crate::error::Result<chrono::Duration> {
    Ok(chrono::Duration::from_std(parse_duration::parse(s)?)?)
}''', '''fn parse_duration(s: &str) -> crate::error::Result<chrono::Duration> {
    let parsed = parse_duration::parse(s)?;
    let duration = chrono::Duration::from_std(parsed)?;
    Ok(duration)
}''')
keep('cmd21', C+'config.rs', '''        match l {
            LogLevel::Trace => Level::TRACE,
            LogLevel::Debug => Level::DEBUG,
            LogLevel::Info => Level::INFO,
            LogLevel::Warn => Level::WARN,
            LogLevel::Error => Level::ERROR,
        }
        .into()
''', '''        let level = match l {
            LogLevel::Error => Level::ERROR,
            LogLevel::Warn => Level::WARN,
            LogLevel::Info => Level::INFO,
            LogLevel::Debug => Level::DEBUG,
            LogLevel::Trace => Level::TRACE,
        };
        LevelFilter::from(level)
''')
