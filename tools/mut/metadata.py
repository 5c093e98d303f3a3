M = 'src/metadata/src/'
# --- behaviour kept
keep('km1', M+'teams.rs', '''        let team = self.get_by_id_(&tx, organization_id, team_id)?;
        tx.delete(make_data_value_key(
            org_ns(organization_id, NAMESPACE).as_slice(),
            team_id,
        ))?;
''', '''        let team = self.get_by_id_(&tx, organization_id, team_id)?;
        let ns = org_ns(organization_id, NAMESPACE);
        let key = make_data_value_key(&ns, team.id);
        tx.delete(key)?;
''')
keep('km2', M+'index.rs', '''    for key in keys.iter().flatten() {
        if tx.get_for_update(key, true)?.is_some() {
            return Err(MetadataError::AlreadyExists(String::from_utf8(
                key.to_owned(),
            )?));
        }
    }
    Ok(())''', '''    for key in keys {
        let Some(key) = key else { continue };
        match tx.get_for_update(key, true)? {
            None => {}
            Some(_) => {
                return Err(MetadataError::AlreadyExists(String::from_utf8(
                    key.clone(),
                )?))
            }
        }
    }
    Ok(())''')
keep('km3', M+'index.rs', '''    for (key, prev_key) in keys.iter().zip(prev_keys) {
        if key != prev_key {
            if let Some(key) = prev_key {
                tx.delete(key)?;
            }
        }

        if let Some(key) = key {
            tx.put(key, value.to_le_bytes())?;
        }
    }

    Ok(())''', '''    let value = value.to_le_bytes();
    for (key, prev_key) in keys.iter().zip(prev_keys.iter()) {
        match prev_key {
            Some(prev) if key != prev_key => tx.delete(prev)?,
            _ => {}
        }
        if let Some(key) = key.as_ref() {
            tx.put(key, value)?;
        }
    }

    Ok(())''')
keep('km4', M+'projects.rs', '''        project.updated_at = Some(Utc::now());
        project.updated_by = Some(req.updated_by);
        if let OptionalProperty::Some(tags) = req.tags {
            project.tags = tags;
        }
        if let OptionalProperty::Some(description) = req.description {
            project.description = description;
        }
''', '''        if let OptionalProperty::Some(description) = req.description {
            project.description = description;
        }
        match req.tags {
            OptionalProperty::Some(tags) => project.tags = tags,
            OptionalProperty::None => {}
        }
        let now = Utc::now();
        project.updated_by = Some(req.updated_by);
        project.updated_at = Some(now);
''')
keep('km5', M+'projects.rs', '''        let data = serialize(&project)?;
        tx.put(make_data_value_key(NAMESPACE, project.id), data)?;

        insert_index(&tx, idx_keys.as_ref(), project.id)?;
        tx.commit()?;
        Ok(project)
    }

    pub fn get_by_id''', '''        insert_index(&tx, idx_keys.as_ref(), project.id)?;
        self.store(&tx, &project)?;
        tx.commit()?;
        Ok(project)
    }

    fn store(&self, tx: &Transaction<TransactionDB>, project: &Project) -> Result<()> {
        let data = serialize(project)?;
        tx.put(make_data_value_key(NAMESPACE, project.id), data)?;
        Ok(())
    }

    pub fn get_by_id''')
keep('km6', M+'projects.rs', '''        let mut project = self.get_by_id_(&tx, project_id)?;
        project.events_count += 1;
''', '''        let mut project = self.get_by_id_(&tx, project_id)?;
        project.events_count = project.events_count + 1;
''')
keep('km7', M+'dictionaries.rs', '''        let tx = self.db.transaction();
        let key = self._get_key_or_create(&tx, project_id, table, dict, value)?;
        tx.commit()?;
        Ok(key)''', '''        let tx = self.db.transaction();
        let res = self._get_key_or_create(&tx, project_id, table, dict, value);
        if res.is_ok() {
            tx.commit()?;
        }
        res''')
keep('km8', M+'dictionaries.rs', '''                let id = next_seq(tx, key)?;
                tx.put(
                    make_key_key(project_id, tbl_dict(table, dict).as_str(), id),
                    value.as_bytes(),
                )?;
                tx.put(
                    make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
                    id.to_le_bytes(),
                )?;
''', '''                let id = next_seq(tx, key)?;
                let path = tbl_dict(table, dict);
                let by_value = make_value_key(project_id, &path, value);
                let by_key = make_key_key(project_id, &path, id);
                tx.put(by_value, id.to_le_bytes())?;
                tx.put(by_key, value.as_bytes())?;
''')
keep('km9', M+'lib.rs', '''    [b"projects/", project_id.to_string().as_bytes(), b"/", ns].concat()''', '''    let mut key = format!("projects/{project_id}/").into_bytes();
    key.extend_from_slice(ns);
    key''')
keep('km10', M+'lib.rs', '''    [ns, b"/data/", id.to_string().as_bytes()].concat()''', '''    let id = id.to_string();
    let mut res = Vec::with_capacity(ns.len() + 6 + id.len());
    res.extend_from_slice(ns);
    res.extend_from_slice(b"/data/");
    res.extend_from_slice(id.as_bytes());
    res''')
keep('km11', M+'sessions.rs', '''        let mut session = match tx.get(key)? {
            None => {
                is_new = true;
                Session {
                    user_id,
                    created_at: Utc::now(),
                }
            }
            Some(value) => deserialize(&value)?,
        };

        session.created_at = time;
''', '''        if tx.get(key)?.is_none() {
            is_new = true;
        }
        let session = Session {
            user_id,
            created_at: time,
        };
''')
keep('km12', M+'teams.rs', '''        let mut idx_keys: Vec<Option<Vec<u8>>> = Vec::new();
        let mut idx_prev_keys: Vec<Option<Vec<u8>>> = Vec::new();
        if let OptionalProperty::Some(name) = &req.name {
            idx_keys.push(index_name_key(organization_id, name.as_str()));
            idx_prev_keys.push(index_name_key(organization_id, prev_team.name.as_str()));
            team.name.clone_from(name);
        }
''', '''        let (idx_keys, idx_prev_keys) = match &req.name {
            OptionalProperty::Some(name) => {
                team.name = name.to_owned();
                (
                    vec![index_name_key(organization_id, name)],
                    vec![index_name_key(organization_id, &prev_team.name)],
                )
            }
            OptionalProperty::None => (vec![], vec![]),
        };
''')
keep('km13', M+'index.rs', '''    let id = tx.get_for_update(key.as_ref(), true)?;
    let result: u64 = match id {
        Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
        None => 1,
    };
    tx.put(key, result.to_le_bytes())?;

    Ok(result)
}

pub fn next_zero''', '''    let last = match tx.get_for_update(key.as_ref(), true)? {
        Some(v) => u64::from_le_bytes(v.try_into().unwrap()),
        None => 0,
    };
    let id = last + 1;
    tx.put(key.as_ref(), id.to_le_bytes())?;
    Ok(id)
}

pub fn next_zero''')
keep('km14', M+'projects.rs', '''        match tx.get(key)? {
            None => Err(MetadataError::NotFound(format!(
                "project {project_id} not found"
            ))),
            Some(value) => Ok(deserialize(&value)?),
        }''', '''        let value = tx
            .get(key)?
            .ok_or_else(|| MetadataError::NotFound(format!("project {project_id} not found")))?;
        deserialize(&value)''')
# --- behaviour broken
brk('bm1', 'C08', M+'projects.rs', 'if let OptionalProperty::Some(description) = req.description {\n            project.description = description;', 'if let OptionalProperty::Some(description) = req.description {\n            project.description = project.description.or(description);')
brk('bm2', 'C08', M+'projects.rs', 'project.updated_by = Some(req.updated_by);', 'project.updated_by = Some(project.created_by);')
brk('bm3', 'C08', M+'teams.rs', 'team.name.clone_from(name);', '')
brk('bm4', 'C09', M+'projects.rs', 'description: req.description,\n            tags: req.tags,', 'description: None,\n            tags: req.tags,')
brk('bm5', 'C09', M+'projects.rs', 'created_by: req.created_by,\n            updated_by: None,', 'created_by: req.organization_id,\n            updated_by: None,')
brk('bm6', 'C10', M+'projects.rs', '        delete_index(&tx, index_keys(&project.name, &project.token).as_ref())?;\n        tx.commit()?;', '        tx.commit()?;\n        delete_index(&tx, index_keys(&project.name, &project.token).as_ref())?;')
brk('bm7', 'C10', M+'teams.rs', '''        insert_index(&tx, idx_keys.as_ref(), team.id)?;
        tx.commit()?;''', '''        insert_index(&tx, idx_keys.as_ref(), team.id)?;
        if team.id % 1024 != 0 {
            tx.commit()?;
        }''')
brk('bm8', 'C10', M+'sessions.rs', '        tx.put(make_data_key(project_id, user_id), data)?;\n        tx.commit()?;', '        self.db.put(make_data_key(project_id, user_id), data)?;\n        tx.commit()?;')
brk('bm9', 'C11', M+'projects.rs', 'idx_prev_keys.push(index_name_key(prev_project.name.as_str()));', 'idx_prev_keys.push(index_name_key(project.token.as_str()));')
brk('bm10', 'C11', M+'projects.rs', """            idx_prev_keys.push(index_name_key(prev_project.name.as_str()));
            project.name.clone_from(name);""", """            project.name.clone_from(name);
            idx_prev_keys.push(index_name_key(project.name.as_str()));""")
brk('bm11', 'C11', M+'teams.rs', 'delete_index(&tx, index_keys(organization_id, &team.name).as_ref())?;', '')
brk('bm12', 'C11', M+'index.rs', 'if key != prev_key && (tx.get_for_update(key_v, true)?).is_some()', 'if prev_key.is_none() && (tx.get_for_update(key_v, true)?).is_some()')
brk('bm13', 'C11', M+'index.rs', '        if key != prev_key {\n            if let Some(key) = prev_key {', '        if key.is_none() {\n            if let Some(key) = prev_key {')
brk('bm14', 'C11', M+'projects.rs', 'check_update_constraints(&tx, idx_keys.as_ref(), idx_prev_keys.as_ref())?;', 'check_update_constraints(&tx, idx_prev_keys.as_ref(), idx_prev_keys.as_ref())?;')
brk('bm15', 'C12', M+'dictionaries.rs', '''        let store_key = make_value_key(project_id, tbl_dict(table, dict).as_str(), value);''', '''        let store_key = make_value_key(project_id, dict, value);''')
brk('bm16', 'C12', M+'lib.rs', '[b"projects/", project_id.to_string().as_bytes(), b"/", ns].concat()', '[b"projects/", project_id.to_string().as_bytes(), ns].concat()')
brk('bm17', 'C12', M+'dictionaries.rs', 'format!("tables/{tbl}/{dict}/")', 'format!("tables/{dict}/")')
brk('bm18', 'C12', M+'sessions.rs', 'project_ns(project_id, NAMESPACE).as_ref(),\n        b"/data".as_slice(),', 'project_ns(user_id, NAMESPACE).as_ref(),\n        b"/data".as_slice(),')
brk('bm19', 'C11', M+'index.rs', '''        Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
        None => 1,''', '''        Some(v) => u64::from_le_bytes(v.try_into().unwrap()),
        None => 1,''')
brk('bm20', 'C12', M+'dictionaries.rs', '''                tx.put(
                    make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
                    id.to_le_bytes(),
                )?;
''', '')
