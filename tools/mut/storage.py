T = 'src/storage/src/'
DB = T+'db.rs'
# a table lookup helper used by one operation
keep('std1', DB, '''        let tables = self.tables.read();
        let tbl = tables.iter().find(|t| t.name == tbl_name);
        let tbl = match tbl {
            None => return Err(StoreError::Internal("table not found".to_string())),
            Some(tbl) => tbl.to_owned(),
        };
        drop(tables);
        // held until the row is in the memtable: a flush or a new field in between would lose or misplace it
''', '''        let tbl = self.find_table(tbl_name)?;
''', DB, '''    // #[instrument(level = "trace", skip(self))]
    pub fn insert(''', '''    fn find_table(&self, tbl_name: &str) -> Result<Table> {
        self.tables
            .read()
            .iter()
            .find(|t| t.name == tbl_name)
            .cloned()
            .ok_or_else(|| StoreError::Internal("table not found".to_string()))
    }

    pub fn insert(''')
keep('std2', DB, '''        for field in metadata.schema.fields.iter().skip(metadata.opts.index_cols) {
            let mut found = false;
            for v in values.iter() {
                if field.name == v.name {
                    final_values.push(v.value.clone());
                    found = true;
                    break;
                }
            }

            if found {
                continue;
            }

            final_values.push(Value::Null);
        }
''', '''        for field in metadata.schema.fields.iter().skip(metadata.opts.index_cols) {
            let val = values
                .iter()
                .find(|v| v.name == field.name)
                .map(|v| v.value.clone())
                .unwrap_or(Value::Null);
            final_values.push(val);
        }
''')
keep('std3', DB, '''        let mut final_values: Vec<Value> = vec![];

        for field in metadata.schema.fields.iter().skip(metadata.opts.index_cols) {
            let mut found = false;
            for v in values.iter() {
                if field.name == v.name {
                    final_values.push(v.value.clone());
                    found = true;
                    break;
                }
            }

            if found {
                continue;
            }

            final_values.push(Value::Null);
        }
''', '''        let final_values = metadata
            .schema
            .fields
            .iter()
            .skip(metadata.opts.index_cols)
            .map(|field| match values.iter().find(|v| field.name == v.name) {
                Some(v) => v.value.clone(),
                None => Value::Null,
            })
            .collect::<Vec<_>>();
''')
keep('std4', DB, '''            match metadata.schema.fields.iter().find(|f| f.name == v.name) {
                None => {
                    return Err(StoreError::Internal(format!(
                        "column {} not found in schema",
                        v.name
                    )));
                }
                f => match (&v.value, &f.unwrap().data_type) {
                    (Value::Int8(_), DataType::Int8) => {}
                    (Value::Int16(_), DataType::Int16) => {}
                    (Value::Int32(_), DataType::Int32) => {}
                    (Value::Int64(_), DataType::Int64) => {}
                    (Value::Boolean(_), DataType::Boolean) => {}
                    (Value::Decimal(_), DataType::Decimal(_, _)) => {}
                    (Value::String(_), DataType::Utf8) => {}
                    (Value::Timestamp(_), DataType::Timestamp(_, _)) => {}
                    _ => {
                        return Err(StoreError::Internal(format!(
                            "column {} ({:?}) has different type: {:?}",
                            v.name,
                            v.value,
                            f.unwrap().data_type
                        )));
                    }
                },
            }
''', '''            let field = metadata
                .schema
                .fields
                .iter()
                .find(|f| f.name == v.name)
                .ok_or_else(|| {
                    StoreError::Internal(format!("column {} not found in schema", v.name))
                })?;
            let matches = matches!(
                (&v.value, &field.data_type),
                (Value::Int8(_), DataType::Int8)
                    | (Value::Int16(_), DataType::Int16)
                    | (Value::Int32(_), DataType::Int32)
                    | (Value::Int64(_), DataType::Int64)
                    | (Value::Boolean(_), DataType::Boolean)
                    | (Value::Decimal(_), DataType::Decimal(_, _))
                    | (Value::String(_), DataType::Utf8)
                    | (Value::Timestamp(_), DataType::Timestamp(_, _))
            );
            if !matches {
                return Err(StoreError::Internal(format!(
                    "column {} ({:?}) has different type: {:?}",
                    v.name, v.value, field.data_type
                )));
            }
''')
keep('std5', DB, '''        if memtable.len() > 0
            && metadata.stats.logged_bytes as usize > metadata.opts.max_log_length_bytes
        {
            let l = flush_log_(''', '''        let log_full = metadata.stats.logged_bytes as usize > metadata.opts.max_log_length_bytes;
        if log_full && memtable.len() > 0 {
            let l = flush_log_(''')
keep('std6', DB, '''    let data = serialize(&op)?;
    let mut a = Vec::with_capacity(1024 * 10);
    let crc = hash_crc32(&data);
    let vv = crc.to_le_bytes();
    a.push(vv.as_slice());
    let vv = (data.len() as u64).to_le_bytes();
    a.push(vv.as_slice());
    a.push(&data);
    log.write_all(a.concat().as_slice())?;
    let logged_size = 8 + 4 + data.len();
''', '''    let data = serialize(&op)?;
    let record = frame(&data);
    log.write_all(&record)?;
    let logged_size = record.len();
''', DB, '''fn log_op(op: LogOp''', '''// checksum, length and data
fn frame(data: &[u8]) -> Vec<u8> {
    let mut buf = Vec::with_capacity(LOG_HEADER_LEN as usize + data.len());
    buf.extend_from_slice(&hash_crc32(data).to_le_bytes());
    buf.extend_from_slice(&(data.len() as u64).to_le_bytes());
    buf.extend_from_slice(data);
    buf
}

fn log_op(op: LogOp''')
keep('std7', DB, '''    log.write_all(a.concat().as_slice())?;
    let logged_size = 8 + 4 + data.len();
''', '''    let record = a.concat();
    log.write_all(&record)?;
    let logged_size = LOG_HEADER_LEN as usize + data.len();
''')
keep('std8', DB, '''    let data = serialize_md(metadata)?;
    let mut a = Vec::with_capacity(1024 * 10);
    let crc = hash_crc32(&data);
    let vv = crc.to_le_bytes();
    a.push(vv.as_slice());
    let vv = (data.len() as u64).to_le_bytes();
    a.push(vv.as_slice());
    a.push(&data);
''', '''    let data = serialize_md(metadata)?;
    let crc = hash_crc32(&data).to_le_bytes();
    let len = (data.len() as u64).to_le_bytes();
    let a = [crc.as_slice(), len.as_slice(), data.as_slice()];
''')
keep('std9', DB, '''            let kv: Vec<Value> = k.iter().map(|k| k.into()).collect::<Vec<_>>();
            let vv = [kv, v].concat();
            let len = vv.len();
            for (idx, val) in vv.into_iter().enumerate() {
                memtable.push_value(idx, val);
            }
            // the fields added since the row was logged
            for idx in len..memtable.cols_len() {
                memtable.push_value(idx, Value::Null);
            }
''', '''            let mut row: Vec<Value> = k.iter().map(|k| k.into()).collect();
            row.extend(v);
            // the fields added since the row was logged
            while row.len() < memtable.cols_len() {
                row.push(Value::Null);
            }
            for (idx, val) in row.into_iter().enumerate() {
                memtable.push_value(idx, val);
            }
''')
keep('std10', DB, '''    for f in dir {
        let f = f?;
        // the metadata is written last: without it the table was never created
        if !f.path().join("metadata").exists() {
            continue;
        }
        tables.push(try_recover_table(
            f.path(),
            f.file_name().to_os_string().into_string().unwrap(),
        )?);
    }
''', '''    for entry in dir {
        let entry = entry?;
        let path = entry.path();
        // the metadata is written last: without it the table was never created
        if path.join("metadata").exists() {
            let name = entry.file_name().into_string().unwrap();
            let table = try_recover_table(path, name)?;
            tables.push(table);
        }
    }
''')
keep('std11', DB, '''    loop {
        let mut header_b = [0u8; LOG_HEADER_LEN as usize];
        if log_len - log_pos < LOG_HEADER_LEN {
            break;
        }
''', '''    while log_len - log_pos >= LOG_HEADER_LEN {
        let mut header_b = [0u8; LOG_HEADER_LEN as usize];
''')
keep('std12', DB, '''        let crc32 = u32::from_le_bytes(header_b[..4].try_into().unwrap());
        // !@#trace!("crc32: {}", crc32);

        let len = u64::from_le_bytes(header_b[4..].try_into().unwrap());
''', '''        let (crc_b, len_b) = header_b.split_at(4);
        let crc32 = u32::from_le_bytes(crc_b.try_into().unwrap());
        let len = u64::from_le_bytes(len_b.try_into().unwrap());
''')
keep('std13', DB, '''        let op = deserialize::<LogOp>(&data_b)?;

        recover_op(op, &mut memtable)?;
        log_pos += LOG_HEADER_LEN + len;
''', '''        log_pos += LOG_HEADER_LEN + len;
        recover_op(deserialize(&data_b)?, &mut memtable)?;
''')
keep('std14', DB, '''    md.stats.logged_bytes = log_pos;

    let log = BufWriter::new(log);
''', '''    let log = BufWriter::new(log);
    md.stats.logged_bytes = log_pos;
''')
keep('std15', DB, '''    let mut new_metadata = metadata.clone();
    new_metadata.levels[0].parts.push(part.clone());
    // increment table id
    new_metadata.levels[0].part_id += 1;
    new_metadata.stats.written_bytes += part.size_bytes;

    new_metadata.stats.logged_bytes = 0;
    // increment log id
    new_metadata.log_id += 1;
''', '''    let mut new_metadata = metadata.clone();
    new_metadata.log_id += 1;
    new_metadata.stats.logged_bytes = 0;
    new_metadata.stats.written_bytes += part.size_bytes;
    let level = &mut new_metadata.levels[0];
    level.part_id += 1;
    level.parts.push(part);
''')
keep('std16', DB, '''    write_metadata(&metadata_path(path, &metadata.table_name), &new_metadata)?;
    *metadata = new_metadata;
    *memtable = memtable.create_empty();

    trace!(
        "removing previous log file {:?}",
        log_name(metadata.log_id - 1)
    );
    // gc removes the log if this fails
    if let Err(err) =
        fs.try_remove_file(log_path(path, &metadata.table_name, metadata.log_id - 1))
    {
        error!("remove failed: {}", err);
    }
''', '''    let old_log = log_path(path, &metadata.table_name, metadata.log_id);
    write_metadata(&metadata_path(path, &metadata.table_name), &new_metadata)?;
    *memtable = memtable.create_empty();
    *metadata = new_metadata;

    trace!("removing previous log file {:?}", old_log);
    // gc removes the log if this fails
    match fs.try_remove_file(old_log) {
        Ok(_) => {}
        Err(err) => error!("remove failed: {}", err),
    }
''')
keep('std17', DB, '''    let part = write_level0(metadata, memtable, path);
    fs.close(&ppath)?;
    let part = part?;
''', '''    let res = write_level0(metadata, memtable, path);
    fs.close(&ppath)?;
    let part = match res {
        Ok(part) => part,
        Err(err) => return Err(err),
    };
''')
keep('std18', DB, '''            .filter_map(|(idx, f)| {
                if projection.contains(&idx) {
                    Some(f.clone())
                } else {
                    None
                }
            })
            .collect::<Vec<_>>();

        let maybe_chunk''', '''            .filter(|(idx, _)| projection.contains(idx))
            .map(|(_, f)| f.clone())
            .collect::<Vec<_>>();

        let maybe_chunk''')
keep('std19', DB, '''        drop(memtable);
        drop(md);
        gauge!(METRIC_STORE_SCAN_PARTS''', '''        drop(md);
        drop(memtable);
        gauge!(METRIC_STORE_SCAN_PARTS''')
keep('std20', DB, '''        let md = tbl.metadata.lock();
        let metadata = md.clone();

        let start_time = Instant::now();
        let memtable = tbl.memtable.lock();
''', '''        let start_time = Instant::now();
        let md = tbl.metadata.lock();
        let memtable = tbl.memtable.lock();
        let metadata = md.clone();
''')
keep('std21', DB, '''        let iter = if rdrs.is_empty() {
            Box::new(MemChunkIterator::new(maybe_chunk))
                as Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send>
        } else {''', '''        let iter: Box<dyn Iterator<Item = Result<Chunk<Box<dyn Array>>>> + Send> = if rdrs.len() == 0
        {
            Box::new(MemChunkIterator::new(maybe_chunk))
        } else {''')
keep('std22', DB, '''        if let Value::Int64(Some(cas)) = values[metadata.opts.index_cols - 1].value {
            let mut cache = tbl.cas.write();
            let key = values[..metadata.opts.index_cols - 1]
                .iter()
                .map(|nv| nv.value.to_owned())
                .collect::<Vec<_>>();
            if let Some(c) = cache.pop(&key) {
                if c != cas {
                    return Err(StoreError::Internal("cas mismatch".to_string()));
                }
            }
        } else {
            unreachable!();
        }
''', '''        let key_cols = metadata.opts.index_cols - 1;
        let cas = match values[key_cols].value {
            Value::Int64(Some(cas)) => cas,
            _ => unreachable!(),
        };
        let key: Vec<Value> = values.iter().take(key_cols).map(|nv| nv.value.clone()).collect();
        let seen = tbl.cas.write().pop(&key);
        match seen {
            Some(c) if c != cas => {
                return Err(StoreError::Internal("cas mismatch".to_string()));
            }
            _ => {}
        }
''')
keep('std23', DB, '''        if memtable.len() == 0 {
            return Ok(());
        }

        let new_log = flush_log_(&self.fs, &mut memtable, &mut metadata, &self.path)?;
        let mut log = tbl.log.lock();
        *log = BufWriter::new(new_log);
        Ok(())
''', '''        if memtable.len() > 0 {
            let new_log = flush_log_(&self.fs, &mut memtable, &mut metadata, &self.path)?;
            *tbl.log.lock() = BufWriter::new(new_log);
        }
        Ok(())
''')
keep('std24', DB, '''        for f in &metadata.schema.fields {
            if f.name == field_name {
                return Err(StoreError::AlreadyExists(format!(
                    "Field with name {} already exists",
                    field_name
                )));
            }
        }
''', '''        if metadata.schema.fields.iter().any(|f| f.name == field_name) {
            return Err(StoreError::AlreadyExists(format!(
                "Field with name {} already exists",
                field_name
            )));
        }
''')
keep('std25', DB, '''        if memtable.cols_len() < metadata.schema.fields.len() {
            let new_cols = metadata.schema.fields.len() - memtable.cols_len();
            drop(metadata);
            for _ in 0..new_cols {
                memtable.add_column(DType::try_from(field.data_type.clone())?);
            }
        }
''', '''        while memtable.cols_len() < metadata.schema.fields.len() {
            memtable.add_column(DType::try_from(field.data_type.clone())?);
        }
''')
keep('std26', DB, '''        for lid in 0..opts.levels {
            fs::create_dir_all(path.join("levels").join(lid.to_string()))?;
        }

        let metadata = Metadata {''', '''        let levels_path = path.join("levels");
        for lid in 0..opts.levels {
            fs::create_dir_all(levels_path.join(format!("{}", lid)))?;
        }

        let metadata = Metadata {''')
keep('std27', DB, '''        let mut tables = self.tables.write();
        for tbl in tables.iter() {
            fs::remove_dir_all(self.path.join(format!("tables/{}", tbl.name)))?;
        }
        *tables = vec![];
        Ok(())
''', '''        let mut tables = self.tables.write();
        let root = self.path.join("tables");
        for tbl in tables.iter() {
            fs::remove_dir_all(root.join(&tbl.name))?;
        }
        tables.clear();
        Ok(())
''')
keep('std28', DB, '''            log_lens.push(fs::metadata(&log_path)?.len());
            mds.push(md);
''', '''            let log_len = fs::metadata(&log_path)?.len();
            mds.push(md);
            log_lens.push(log_len);
''')
keep('std29', DB, '''        let data = serialize(&tbls)?;
        writer.write_all((data.len() as u64).to_le_bytes().as_slice())?;
        writer.write_all(data.as_slice())?;

        // table
''', '''        let data = serialize(&tbls)?;
        let len = data.len() as u64;
        writer.write_all(&len.to_le_bytes())?;
        writer.write_all(&data)?;

        // table
''')
keep('std30', DB, '''        // version
        let mut version_b = [0u8; mem::size_of::<u64>()];
        reader.read_exact(&mut version_b)?;
        let version = u64::from_le_bytes(version_b);
        // tables len
        let mut tbl_len_b = [0u8; mem::size_of::<u64>()];
        reader.read_exact(&mut tbl_len_b)?;
        let tbl_len = u64::from_le_bytes(tbl_len_b);
''', '''        let version = read_u64(reader)?;
        let tbl_len = read_u64(reader)?;
''', DB, '''            let mut log_len_b = [0u8; mem::size_of::<u64>()];
            reader.read_exact(&mut log_len_b)?;
            let log_len = u64::from_le_bytes(log_len_b);
''', '''            let log_len = read_u64(reader)?;
''', DB, '''fn log_op(op: LogOp''', '''fn read_u64<R: Read>(reader: &mut R) -> Result<u64> {
    let mut b = [0u8; mem::size_of::<u64>()];
    reader.read_exact(&mut b)?;
    Ok(u64::from_le_bytes(b))
}

fn log_op(op: LogOp''')
keep('std31', DB, '''        let from = recover_tables(&path)?;
        let mut to = self.tables.write();
        *to = from;
        Ok(())
''', '''        let restored = recover_tables(&path)?;
        *self.tables.write() = restored;
        Ok(())
''')
keep('std32', DB, '''                            let mut found = false;
                            for part in md.levels[lvl].parts.iter() {
                                if part.id == part_id as usize {
                                    found = true;
                                    break;
                                }
                            }
                            if !found {
''', '''                            let found = md.levels[lvl]
                                .parts
                                .iter()
                                .any(|part| part.id == part_id as usize);
                            if !found {
''')
keep('std34', DB, '''                        match fs.try_remove_file(f.path()) {
                            // try to remove log. It may be removed during flush_op
                            Ok(_) => {}
                            Err(err) => {
                                error!("remove failed: {}", err);
                            }
                        }
''', '''                        // try to remove log. It may be removed during flush_op
                        if let Err(err) = fs.try_remove_file(f.path()) {
                            error!("remove failed: {}", err);
                        }
''')
keep('std35', DB, '''        match self.iter.next() {
            None => {
                histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                    .record(self.start_time.elapsed());
                Poll::Ready(None)
            }
            Some(chunk) => {
                let chunk = chunk?;
                Poll::Ready(Some(Ok(chunk)))
            }
        }
''', '''        let next = self.iter.next();
        if next.is_none() {
            histogram!(METRIC_STORE_SCAN_TIME_SECONDS,"table"=>self.table_name.to_string())
                .record(self.start_time.elapsed());
        }
        Poll::Ready(next)
''')
keep('std36', DB, '''        for (level_id, level) in self.md.levels.iter().enumerate() {
            for part in &level.parts {
                let path = part_path(&self.path, &self.table_name, level_id, part.id);
                if let Err(err) = self.fs.close(&path) {
                    error!("close failed: {}", err);
                }
            }
        }
''', '''        let paths = self.md.levels.iter().enumerate().flat_map(|(level_id, level)| {
            level.parts.iter().map(move |part| (level_id, part.id))
        });
        for (level_id, part_id) in paths {
            let path = part_path(&self.path, &self.table_name, level_id, part_id);
            match self.fs.close(&path) {
                Ok(_) => {}
                Err(err) => error!("close failed: {}", err),
            }
        }
''')
keep('std37', DB, '''        if res.is_none() {
            return Ok(None);
        }

        let tables = self.tables.read();''', '''        let Some(row) = res else {
            return Ok(None);
        };

        let tables = self.tables.read();''', DB, '''        if let Some(res) = &res {
            if let Value::Int64(Some(cas)) = res[metadata.opts.index_cols - 1] {
                let mut cache = tbl.cas.write();
                let key = res[..metadata.opts.index_cols - 1].to_vec();

                cache.put(key, cas);
            } else {
                unreachable!();
            }
        }

        Ok(res)
''', '''        let key_cols = metadata.opts.index_cols - 1;
        if let Value::Int64(Some(cas)) = row[key_cols] {
            tbl.cas.write().put(row[..key_cols].to_vec(), cas);
        } else {
            unreachable!();
        }

        Ok(Some(row))
''')
keep('std38', DB, '''        let mut ret = vec![];
        let md = tbl.metadata.lock();
        for (level_id, level) in md.levels.iter().enumerate() {
            for part in &level.parts {
                let path = part_path(&self.path, tbl_name, level_id, part.id);
                ret.push(path.into_os_string().into_string().unwrap());
            }
        }

        Ok(ret)
''', '''        let md = tbl.metadata.lock();
        Ok(md
            .levels
            .iter()
            .enumerate()
            .flat_map(|(level_id, level)| level.parts.iter().map(move |part| (level_id, part.id)))
            .map(|(level_id, part_id)| part_path(&self.path, tbl_name, level_id, part_id))
            .map(|path| path.into_os_string().into_string().unwrap())
            .collect())
''')
C = T+'compaction.rs'
keep('stc1', C, '''                            for rem in &res.l0_remove {
                                metadata.levels[0].parts = metadata.levels[0]
                                    .parts
                                    .clone()
                                    .into_iter()
                                    .filter(|p| p.id != *rem)
                                    .collect::<Vec<_>>();
                            }
''', '''                            metadata.levels[0]
                                .parts
                                .retain(|p| !res.l0_remove.contains(&p.id));
''')
keep('stc2', C, '''                            for op in res.fs_ops {
                                match op {
                                    FsOp::Close(path) => {
                                        self.fs.close(&path).expect("close failed");
                                    }
                                    FsOp::Delete(path) => {
                                        trace!("deleting {:?}", &path);
                                        self.fs.close(&path).expect("close failed");
                                        self.fs.try_remove_file(&path).unwrap();
                                    }
                                }
                            }
''', '''                            for op in res.fs_ops {
                                self.apply(op);
                            }
''', C, '''    pub fn run(self) {
        loop {
            #[cfg(not(test))]
''', '''    fn apply(&self, op: FsOp) {
        let (path, delete) = match op {
            FsOp::Close(path) => (path, false),
            FsOp::Delete(path) => (path, true),
        };
        self.fs.close(&path).expect("close failed");
        if delete {
            trace!("deleting {:?}", &path);
            self.fs.try_remove_file(&path).unwrap();
        }
    }

    pub fn run(self) {
        loop {
            #[cfg(not(test))]
''')
keep('stc3', C, '''            let tables = {
                let tbls = self.tables.read();
                tbls.clone()
            };
''', '''            let tables = self.tables.read().clone();
''')
keep('stc4', C, '''                let metadata = {
                    let md = table.metadata.lock();
                    md.clone()
                };
''', '''                let metadata = table.metadata.lock().clone();
''')
keep('stc5', C, '''    let min = to_compact
        .iter()
        .map(|tc| level.get_part(tc.part).min)
        .min()
        .unwrap();
    let max = to_compact
        .iter()
        .map(|tc| level.get_part(tc.part).max)
        .max()
        .unwrap();
    for part in &next_level.parts {
        if cmp::max(part.min.clone(), min.clone()) <= cmp::min(part.max.clone(), max.clone()) {
            to_compact.push(ToCompact::new(level_id + 1, part.id));
        }
    }
''', '''    let chosen = to_compact
        .iter()
        .map(|tc| level.get_part(tc.part))
        .collect::<Vec<_>>();
    let min = chosen.iter().map(|p| p.min.clone()).min().unwrap();
    let max = chosen.iter().map(|p| p.max.clone()).max().unwrap();
    for part in next_level.parts.iter() {
        let overlaps = part.min <= max && min <= part.max;
        if overlaps {
            to_compact.push(ToCompact::new(level_id + 1, part.id));
        }
    }
''')
keep('stc6', C, '''    if level_id == 0 && level_parts.len() > opts.l0_max_parts {
        for part in level_parts {
            to_compact.push(ToCompact::new(0, part.id));
        }
''', '''    if level_id == 0 && level_parts.len() > opts.l0_max_parts {
        to_compact.extend(level_parts.iter().map(|part| ToCompact::new(0, part.id)));
''')
keep('stc7', C, '''                    let idx = tmp_levels[level_id]
                        .parts
                        .iter()
                        .position(|p| p.id == to_compact[0].part)
                        .unwrap();

                    let mut part = tmp_levels[level_id].parts[idx].clone();
                    tmp_levels[level_id].parts.remove(idx);
                    part.id''', '''                    let parts = &mut tmp_levels[level_id].parts;
                    let idx = parts
                        .iter()
                        .position(|p| p.id == to_compact[0].part)
                        .unwrap();
                    let mut part = parts.remove(idx);
                    part.id''')
keep('stc8', C, '''                    tmp_levels[tc.level].parts = tmp_levels[tc.level]
                        .clone()
                        .parts
                        .into_iter()
                        .filter(|p| p.id != tc.part)
                        .collect::<Vec<_>>();
''', '''                    tmp_levels[tc.level].parts.retain(|p| p.id != tc.part);
''')
keep('stc9', C, '''                for p in tomerge.iter() {
                    fs.open(p)?;
                }

                fs_ops.append(
                    tomerge
                        .iter()
                        .map(|p| FsOp::Delete(p.clone()))
                        .collect::<Vec<_>>()
                        .as_mut(),
                );
''', '''                for p in tomerge {
                    fs.open(&p)?;
                    fs_ops.push(FsOp::Delete(p));
                }
''')
keep('stc10', C, '''                    let final_part = {
                        Part {
                            id: tmp_levels[level_id + 1].part_id + 1,
                            size_bytes: f.size_bytes,
                            values: f.values,
                            min: f
                                .min
                                .iter()
                                .map(|v| v.try_into())
                                .collect::<Result<Vec<_>>>()?,
                            max: f
                                .max
                                .iter()
                                .map(|v| v.try_into())
                                .collect::<Result<Vec<_>>>()?,
                        }
                    };
                    tmp_levels[level_id + 1].parts.push(final_part);
                    tmp_levels[level_id + 1].part_id += 1;
''', '''                    let min = f
                        .min
                        .iter()
                        .map(|v| v.try_into())
                        .collect::<Result<Vec<_>>>()?;
                    let max = f
                        .max
                        .iter()
                        .map(|v| v.try_into())
                        .collect::<Result<Vec<_>>>()?;
                    let next = &mut tmp_levels[level_id + 1];
                    next.part_id += 1;
                    next.parts.push(Part {
                        id: next.part_id,
                        size_bytes: f.size_bytes,
                        values: f.values,
                        min,
                        max,
                    });
''')
keep('stc11', C, '''        match v {
            None => {
                if compacted {
                    break;
                } else {
                    return Ok(None);
                }
            }
''', '''        match v {
            None if compacted => break,
            None => return Ok(None),
''')
keep('stc12', C, '''                let rdrs = tomerge
                    .iter()
                    .map(File::open)
                    .collect::<std::result::Result<Vec<File>, std::io::Error>>()
                    .unwrap();
''', '''                let mut rdrs = Vec::with_capacity(tomerge.len());
                for p in tomerge.iter() {
                    rdrs.push(File::open(p).unwrap());
                }
''')
keep('stc13', C, '''                match compact(
                    table.name.as_str(),
                    metadata.levels.clone(),
                    &self.path,
                    self.fs.clone(),
                    &metadata.opts,
                ) {
                    Ok(res) => match res {
                        None => continue,
                        Some(res) => {
                            let mut metadata''', '''                let res = compact(
                    table.name.as_str(),
                    metadata.levels.clone(),
                    &self.path,
                    self.fs.clone(),
                    &metadata.opts,
                );
                match res {
                    Ok(res) => match res {
                        None => {}
                        Some(res) => {
                            let mut metadata''')
M_ = T+'memtable.rs'
keep('stm1', M_, '''        for idx in 0..self.len() {
            let mut found = true;
            for (kid, k) in key.iter().enumerate() {
                if &self.cols[kid].values[idx] != k {
                    found = false;
                    break;
                }
            }

            if found {
                last_idx = Some(idx);
            }
        }
''', '''        for idx in 0..self.len() {
            let found = key
                .iter()
                .enumerate()
                .all(|(kid, k)| &self.cols[kid].values[idx] == k);
            if found {
                last_idx = Some(idx);
            }
        }
''')
keep('stm2', M_, '''        if let Some(idx) = last_idx {
            let vals = self
                .cols
                .iter()
                .map(|c| c.values[idx].clone())
                .collect::<Vec<_>>();
            return Some(vals);
        }

        None
''', '''        last_idx.map(|idx| self.cols.iter().map(|c| c.values[idx].clone()).collect())
''')
keep('stm3', M_, '''        let mut last_idx = None;
        for idx in 0..self.len() {
            let mut found = true;
            for (kid, k) in key.iter().enumerate() {
                if &self.cols[kid].values[idx] != k {
                    found = false;
                    break;
                }
            }

            if found {
                last_idx = Some(idx);
            }
        }

        if let Some(idx) = last_idx {
            let vals = self
                .cols
                .iter()
                .map(|c| c.values[idx].clone())
                .collect::<Vec<_>>();
            return Some(vals);
        }

        None
''', '''        // the last one written wins
        for idx in (0..self.len()).rev() {
            if key
                .iter()
                .enumerate()
                .all(|(kid, k)| self.cols[kid].values[idx] == *k)
            {
                return Some(self.cols.iter().map(|c| c.values[idx].clone()).collect());
            }
        }

        None
''')
keep('stm4', M_, '''                let mut last = None;
                for row_id in 0..arrs[0].len() {
                    if last.is_none() {
                        last = Some(vec![a.value(row_id), b.value(row_id)]);
                        continue;
                    }
                    if last != Some(vec![a.value(row_id), b.value(row_id)]) {
                        indices.push(Some(row_id as i64 - 1));
                        last = Some(vec![a.value(row_id), b.value(row_id)]);
                    }
                }
                indices.push(Some(arrs[0].len() as i64 - 1));
''', '''                let len = arrs[0].len();
                for row_id in 1..len {
                    let same = a.value(row_id) == a.value(row_id - 1)
                        && b.value(row_id) == b.value(row_id - 1);
                    if !same {
                        indices.push(Some(row_id as i64 - 1));
                    }
                }
                indices.push(Some(len as i64 - 1));
''')
keep('stm5', M_, '''        let arrs = match cols {
            None => self
                .cols
                .iter()
                .map(|c| c.clone().into_array())
                .collect::<Vec<_>>(),
            Some(cols) => self
                .cols
                .iter()
                .enumerate()
                .filter(|(idx, _)| cols.contains(idx))
                .map(|(_, c)| c.clone().into_array())
                .collect::<Vec<_>>(),
        };
''', '''        let mut arrs = vec![];
        for (idx, col) in self.cols.iter().enumerate() {
            let wanted = match &cols {
                None => true,
                Some(cols) => cols.contains(&idx),
            };
            if wanted {
                arrs.push(col.clone().into_array());
            }
        }
''')
keep('stm6', M_, '''        if self.cols_len() == 0 {
            return 0;
        }
        self.cols[0].len()
''', '''        self.cols.first().map_or(0, |c| c.len())
''')
keep('stm7', M_, '''        let mut arrs = arrs
            .iter()
            .map(|arr| take::take(arr.as_ref(), &indices))
            .collect::<std::result::Result<Vec<_>, _>>()?;

        if is_replacing''', '''        let mut sorted = Vec::with_capacity(arrs.len());
        for arr in arrs.iter() {
            sorted.push(take::take(arr.as_ref(), &indices)?);
        }
        let mut arrs = sorted;

        if is_replacing''')
LB = T+'lib.rs'
keep('stl1', LB, '''        let mut count = self.count.write().unwrap();
        let c = count
            .entry(path.as_ref().display().to_string())
            .or_insert(0);
        *c += 1;
        Ok(())
''', '''        let name = path.as_ref().display().to_string();
        *self.count.write().unwrap().entry(name).or_insert(0) += 1;
        Ok(())
''')
keep('stl2', LB, '''        match count.get(&path.as_ref().display().to_string()) {
            None => false,
            Some(v) => *v != 0,
        }
''', '''        let name = path.as_ref().display().to_string();
        count.get(&name).map(|v| *v > 0).unwrap_or(false)
''')
keep('stl3', LB, '''        if !self.is_opened(&path) {
            return match fs::remove_file(path) {
                // the compactor and the garbage collector may remove the same file
                Err(err) if err.kind() == io::ErrorKind::NotFound => Ok(()),
                res => Ok(res?),
            };
        }
        Ok(())
''', '''        if self.is_opened(&path) {
            return Ok(());
        }
        if let Err(err) = fs::remove_file(path) {
            // the compactor and the garbage collector may remove the same file
            if err.kind() != io::ErrorKind::NotFound {
                return Err(err.into());
            }
        }
        Ok(())
''')
