M = 'src/metadata/src/'

GET_EV = '''        match tx.get(key)? {
            None => Err(MetadataError::NotFound(
                format!("event {id} not found").to_string(),
            )),
            Some(value) => Ok(deserialize(&value)?),
        }
'''
keep('mse1', M+'events.rs', GET_EV, '''        let value = tx.get(key)?.ok_or_else(|| {
            MetadataError::NotFound(format!("event {id} not found").to_string())
        })?;

        deserialize(&value)
''')
keep('mse2', M+'events.rs', GET_EV, '''        let Some(value) = tx.get(key)? else {
            return Err(MetadataError::NotFound(format!("event {id} not found")));
        };
        let event = deserialize(value.as_slice())?;
        Ok(event)
''')
keep('mse3', M+'events.rs', GET_EV, '''        if let Some(value) = tx.get(&key)? {
            return deserialize(&value);
        }

        Err(MetadataError::NotFound(
            format!("event {id} not found").to_string(),
        ))
''')
LOOP = '''            let (key, value) = kv?;
            // check if key contains the prefix
            if !from_utf8(&prefix)
                .unwrap()
                .is_prefix_of(from_utf8(&key).unwrap())
            {
                break;
            }
            list.push(deserialize(&value)?);
'''
keep('mse4', M+'events.rs', LOOP, '''            let (key, value) = kv?;
            if !key.starts_with(&prefix) {
                break;
            }
            let item = deserialize(&value)?;
            list.push(item);
''')
keep('mse5', M+'events.rs', LOOP, '''            let (key, value) = kv?;
            // check if key contains the prefix
            let within = from_utf8(&prefix)
                .unwrap()
                .is_prefix_of(from_utf8(&key).unwrap());
            if within {
                list.push(deserialize(&value)?);
            } else {
                break;
            }
''')
keep('mse6', M+'events.rs', '''        let ret = self.create_(&tx, project_id, req)?;
        tx.commit()?;
        Ok(ret)
    }

    pub fn get_by_id(''', '''        self.create_(&tx, project_id, req).and_then(|ret| {
            tx.commit()?;
            Ok(ret)
        })
    }

    pub fn get_by_id(''')
keep('mse7', M+'events.rs', '''        match self.get_by_name_(&tx, project_id, req.name.as_str()) {
            Ok(event) => return Ok(event),
            Err(MetadataError::NotFound(_)) => {}
            other => return other,
        }
''', '''        let found = self.get_by_name_(&tx, project_id, &req.name);
        if !matches!(found, Err(MetadataError::NotFound(_))) {
            return found;
        }
''')
keep('mse8', M+'events.rs', '''            match &event.event_properties {
                None => {}
                Some(ex) => {
                    if ex.iter().any(|x| prop == *x) {
                        continue;
                    }
                }
            }
            event.event_properties = match event.event_properties {
                None => Some(vec![prop]),
                Some(props) => Some([props, vec![prop]].concat()),
            };
''', '''            let props = event.event_properties.get_or_insert_with(Vec::new);
            if !props.contains(&prop) {
                props.push(prop);
            }
''')
keep('mse9', M+'events.rs', '''            match &event.event_properties {
                None => {}
                Some(ex) => {
                    if ex.iter().any(|x| prop == *x) {
                        continue;
                    }
                }
            }
            event.event_properties = match event.event_properties {
                None => Some(vec![prop]),
                Some(props) => Some([props, vec![prop]].concat()),
            };
''', '''            let mut props = event.event_properties.unwrap_or_default();
            if !props.iter().any(|x| *x == prop) {
                props.push(prop);
            }
            event.event_properties = Some(props);
''')
keep('mse10', M+'events.rs', '''            None => Some(vec![$prop_id]),
            Some(props) => match props.iter().find(|x| $prop_id == **x) {
                None => Some([props, vec![$prop_id]].concat()),
                Some(_) => {
                    return Err(MetadataError::AlreadyExists(
                        "property already exist".to_string(),
                    ));
                }
            },
''', '''            None => Some(vec![$prop_id]),
            Some(mut props) => {
                if props.contains(&$prop_id) {
                    return Err(MetadataError::AlreadyExists(
                        "property already exist".to_string(),
                    ));
                }
                props.push($prop_id);
                Some(props)
            }
''')
keep('mse11', M+'events.rs', '''            Some(props) => match props.iter().find(|x| $prop_id == **x) {
                None => {
                    return Err(MetadataError::NotFound(
                        format!("property {} not found", $prop_id).to_string(),
                    ));
                }
                Some(_) => Some(props.into_iter().filter(|x| $prop_id != *x).collect()),
            },
''', '''            Some(mut props) => {
                let before = props.len();
                props.retain(|x| *x != $prop_id);
                if props.len() == before {
                    return Err(MetadataError::NotFound(
                        format!("property {} not found", $prop_id).to_string(),
                    ));
                }
                Some(props)
            }
''')
keep('mse12', M+'events.rs', '''        let event = self.get_by_id_(&tx, project_id, id)?;
        tx.delete(make_data_value_key(
            project_ns(project_id, NAMESPACE).as_slice(),
            id,
        ))?;

        delete_index(
            &tx,
            index_keys(project_id, &event.name, event.display_name.clone()).as_ref(),
        )?;
''', '''        let event = self.get_by_id_(&tx, project_id, id)?;
        let keys = index_keys(project_id, &event.name, event.display_name.clone());
        delete_index(&tx, &keys)?;

        let ns = project_ns(project_id, NAMESPACE);
        tx.delete(make_data_value_key(&ns, id))?;
''')
keep('mse13', M+'events.rs', '''    [
        index_name_key(project_id, name),
        index_display_name_key(project_id, display_name),
    ]
    .to_vec()
''', '''    let mut keys = Vec::with_capacity(2);
    keys.push(index_name_key(project_id, name));
    keys.push(index_display_name_key(project_id, display_name));
    keys
''')
keep('mse14', M+'events.rs', '''        if let OptionalProperty::Some(name) = &req.name {
            idx_keys.push(index_name_key(project_id, name.as_str()));
            idx_prev_keys.push(index_name_key(project_id, prev_event.name.as_str()));
            event.name.clone_from(name);
        }
''', '''        match req.name {
            OptionalProperty::None => {}
            OptionalProperty::Some(name) => {
                idx_prev_keys.push(index_name_key(project_id, &prev_event.name));
                idx_keys.push(index_name_key(project_id, &name));
                event.name = name;
            }
        }
''')
keep('mse15', M+'events.rs', '''            event.description = description;
        }
        if let OptionalProperty::Some(status) = req.status {
            event.status = status;
        }
''', '''            event.description = description;
        }
        event.status = match req.status {
            OptionalProperty::Some(status) => status,
            OptionalProperty::None => event.status,
        };
''')

# organizations
keep('mso1', M+'organizations.rs', '''        if org.members.iter().any(|(id, _)| *id == member_id) {
            return Err(MetadataError::AlreadyExists(''', '''        if org.is_member(member_id) {
            return Err(MetadataError::AlreadyExists(''')
keep('mso2', M+'organizations.rs', '''        if !org.members.iter().any(|(id, _)| *id == member_id) {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found").to_string(),
            ));
        }
        org.members.retain(|(id, _)| *id != member_id);
''', '''        match org.members.iter().position(|(id, _)| *id == member_id) {
            Some(pos) => {
                org.members.remove(pos);
            }
            None => {
                return Err(MetadataError::NotFound(
                    format!("member {member_id} not found").to_string(),
                ));
            }
        }
''')
keep('mso3', M+'organizations.rs', '''        if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
            member.1 = role.clone();
            self.accs
                .change_organization_role_(&tx, member_id, id, role)?;
        } else {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found").to_string(),
            ));
        }
''', '''        let Some(member) = org.members.iter_mut().find(|m| m.0 == member_id) else {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found").to_string(),
            ));
        };
        member.1 = role.clone();
        self.accs
            .change_organization_role_(&tx, member_id, id, role)?;
''')
keep('mso4', M+'organizations.rs', '''        if let Some(member) = org.members.iter_mut().find(|(id, _)| *id == member_id) {
            member.1 = role.clone();
            self.accs
                .change_organization_role_(&tx, member_id, id, role)?;
        } else {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found").to_string(),
            ));
        }
''', '''        let mut found = false;
        for (id, r) in org.members.iter_mut() {
            if *id == member_id {
                *r = role.clone();
                found = true;
                break;
            }
        }
        if !found {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found").to_string(),
            ));
        }
        self.accs
            .change_organization_role_(&tx, member_id, id, role)?;
''')
keep('mso5', M+'organizations.rs', '''        for (member_id, _) in org.members.iter() {
            match self.accs.remove_organization_(&tx, *member_id, id) {
                // the account may be deleted or may have left already
                Ok(()) | Err(MetadataError::NotFound(_)) => {}
                Err(err) => return Err(err),
            }
        }
''', '''        for member in &org.members {
            if let Err(err) = self.accs.remove_organization_(&tx, member.0, id) {
                if !matches!(err, MetadataError::NotFound(_)) {
                    return Err(err);
                }
            }
        }
''')
keep('mso6', M+'organizations.rs', '''        self.accs
            .add_organization_(&tx, req.created_by, id, OrganizationRole::Owner)?;
        tx.commit()?;
        Ok(org)
''', '''        for (member_id, role) in org.members.iter() {
            self.accs
                .add_organization_(&tx, *member_id, org.id, role.clone())?;
        }
        tx.commit()?;
        Ok(org)
''')
keep('mso7', M+'organizations.rs', '''        self.accs.add_organization_(&tx, member_id, id, role)?;
        let data = serialize(&org)?;
        tx.put(make_data_value_key(NAMESPACE, org.id), data)?;
        tx.commit()?;
        Ok(())
''', '''        tx.put(make_data_value_key(NAMESPACE, id), serialize(&org)?)?;
        self.accs.add_organization_(&tx, member_id, id, role)?;

        Ok(tx.commit()?)
''')

# index / dictionaries / lib
keep('msi1', M+'index.rs', '''    match tx.get(key.as_ref())? {
        None => Err(MetadataError::NotFound(err_key.to_string())),
        Some(v) => Ok(u64::from_le_bytes(v.try_into().unwrap())),
    }
''', '''    let v = tx
        .get(key.as_ref())?
        .ok_or_else(|| MetadataError::NotFound(err_key.to_string()))?;
    let bytes: [u8; 8] = v.try_into().unwrap();
    Ok(u64::from_le_bytes(bytes))
''')
keep('msi2', M+'index.rs', '''    let id = tx.get_for_update(key.as_ref(), true)?;
    let result: u64 = match id {
        Some(v) => u64::from_le_bytes(v.try_into().unwrap()) + 1,
        None => 1,
    };
    tx.put(key, result.to_le_bytes())?;
''', '''    let last = tx
        .get_for_update(key.as_ref(), true)?
        .map(|v| u64::from_le_bytes(v.try_into().unwrap()))
        .unwrap_or(0);
    let result = last + 1;
    tx.put(key, result.to_le_bytes())?;
''')
keep('msi3', M+'index.rs', '''    for (key, prev_key) in keys.iter().zip(prev_keys) {
        if let Some(key_v) = key {
            if key != prev_key && (tx.get_for_update(key_v, true)?).is_some() {
                return Err(MetadataError::AlreadyExists(String::from_utf8(
                    key_v.to_owned(),
                )?));
            }
        }
    }
''', '''    for (i, key) in keys.iter().enumerate() {
        if *key == prev_keys[i] {
            continue;
        }
        let Some(key_v) = key else {
            continue;
        };
        if tx.get_for_update(key_v, true)?.is_some() {
            return Err(MetadataError::AlreadyExists(String::from_utf8(
                key_v.clone(),
            )?));
        }
    }
''')
keep('msi4', M+'index.rs', '''        if key != prev_key {
            if let Some(key) = prev_key {
                tx.delete(key)?;
            }
        }

        if let Some(key) = key {
            tx.put(key, value.to_le_bytes())?;
        }
''', '''        match prev_key {
            Some(prev) if key.as_ref() != Some(prev) => tx.delete(prev)?,
            _ => {}
        }

        if let Some(key) = key.as_ref() {
            tx.put(key, value.to_le_bytes())?;
        }
''')
keep('msi5', M+'index.rs', '''pub fn delete_index(tx: &Transaction<TransactionDB>, keys: &[Option<Vec<u8>>]) -> Result<()> {
    for key in keys.iter().flatten() {
        tx.delete(key)?;
    }
    Ok(())
}''', '''pub fn delete_index(tx: &Transaction<TransactionDB>, keys: &[Option<Vec<u8>>]) -> Result<()> {
    keys.iter()
        .filter_map(|key| key.as_ref())
        .try_for_each(|key| tx.delete(key))?;
    Ok(())
}''')
keep('msi6', M+'index.rs', '''    for key in keys.iter().flatten() {
        if tx.get_for_update(key, true)?.is_some() {
            return Err(MetadataError::AlreadyExists(String::from_utf8(
                key.to_owned(),
            )?));
        }
    }
    Ok(())
''', '''    for key in keys {
        let key = match key {
            Some(key) => key,
            None => continue,
        };
        let taken = tx.get_for_update(key, true)?.is_some();
        if taken {
            let name = String::from_utf8(key.to_vec())?;
            return Err(MetadataError::AlreadyExists(name));
        }
    }
    Ok(())
''')
keep('msd1', M+'dictionaries.rs', '''        let res = match tx.get(make_value_key(
            project_id,
            tbl_dict(table, dict).as_str(),
            value,
        ))? {
            None => {
                let key = make_id_seq_key(
                    project_ns(
                        project_id,
                        dict_ns(tbl_dict(table, dict).as_str()).as_slice(),
                    )
                    .as_slice(),
                );
                let id = next_seq(tx, key)?;
                tx.put(
                    make_key_key(project_id, tbl_dict(table, dict).as_str(), id),
                    value.as_bytes(),
                )?;
                tx.put(
                    make_value_key(project_id, tbl_dict(table, dict).as_str(), value),
                    id.to_le_bytes(),
                )?;

                Ok(id)
            }
            Some(key) => Ok(u64::from_le_bytes(key.try_into().unwrap())),
        };

        res
''', '''        let name = tbl_dict(table, dict);
        let value_key = make_value_key(project_id, &name, value);
        if let Some(key) = tx.get(&value_key)? {
            return Ok(u64::from_le_bytes(key.try_into().unwrap()));
        }

        let ns = project_ns(project_id, &dict_ns(&name));
        let id = next_seq(tx, make_id_seq_key(&ns))?;
        tx.put(value_key, id.to_le_bytes())?;
        tx.put(make_key_key(project_id, &name, id), value)?;

        Ok(id)
''')
keep('msd2', M+'dictionaries.rs', '''        match tx.get(store_key.as_slice())? {
            None => Err(MetadataError::NotFound(format!(
                "table {table}, project {project_id}, dict {dict}: value for key {key} not found"
            ))),
            Some(value) => Ok(String::from_utf8(value)?),
        }
''', '''        tx.get(store_key.as_slice())?
            .map(|value| String::from_utf8(value).map_err(Into::into))
            .unwrap_or_else(|| {
                Err(MetadataError::NotFound(format!(
                    "table {table}, project {project_id}, dict {dict}: value for key {key} not found"
                )))
            })
''')
keep('msl1', M+'lib.rs', '''    [ns, b"/idx/", idx_name, b"/", key.as_bytes()].concat()
''', '''    let mut res = ns.to_vec();
    res.extend_from_slice(b"/idx/");
    res.extend_from_slice(idx_name);
    res.push(b'/');
    res.extend_from_slice(key.as_bytes());
    res
''')
keep('msl2', M+'lib.rs', '''    [ns, b"/data"].concat()
''', '''    let mut key = Vec::with_capacity(ns.len() + 5);
    key.extend(ns);
    key.extend(b"/data");
    key
''')

keep('msa1', M+'accounts.rs', '''        for (id, r) in orgs.iter_mut() {
            if *id == org_id {
                *r = role;
                let data = serialize(&account)?;
                tx.put(make_data_value_key(NAMESPACE, account.id), data)?;
                return Ok(());
            }
        }
        Err(MetadataError::NotFound(
            format!("member {member_id} not found in organization {org_id}").to_string(),
        ))
''', '''        let entry = orgs
            .iter_mut()
            .find(|(id, _)| *id == org_id)
            .ok_or_else(|| {
                MetadataError::NotFound(
                    format!("member {member_id} not found in organization {org_id}").to_string(),
                )
            })?;
        entry.1 = role;
        let data = serialize(&account)?;
        tx.put(make_data_value_key(NAMESPACE, account.id), data)?;
        Ok(())
''')
keep('msa2', M+'accounts.rs', '''        if orgs.iter().all(|(id, _)| *id != org_id) {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found in organization {org_id}").to_string(),
            ));
        }
        orgs.retain(|(id, _)| *id != org_id);
''', '''        let Some(idx) = orgs.iter().position(|o| o.0 == org_id) else {
            return Err(MetadataError::NotFound(
                format!("member {member_id} not found in organization {org_id}").to_string(),
            ));
        };
        orgs.remove(idx);
''')
keep('msa3', M+'accounts.rs', '''        let mut account = self.get_by_id_(tx, member_id)?;
        let orgs = account.organizations.get_or_insert(Vec::new());
        if orgs.iter().any(|(id, _)| *id == org_id) {
            return Err(MetadataError::AlreadyExists(
                format!("member {member_id} already in organization {org_id}").to_string(),
            ));
        }
        orgs.push((org_id, role));
        let data = serialize(&account)?;
''', '''        let account = self.get_by_id_(tx, member_id)?;
        let mut orgs = account.organizations.clone().unwrap_or_default();
        for (id, _) in &orgs {
            if *id == org_id {
                return Err(MetadataError::AlreadyExists(
                    format!("member {member_id} already in organization {org_id}").to_string(),
                ));
            }
        }
        orgs.push((org_id, role));
        let account = Account {
            organizations: Some(orgs),
            ..account
        };
        let data = serialize(&account)?;
''')
keep('mss1', M+'sessions.rs', '''            list.push(deserialize(&value)?);
        }

        let tx = self.db.transaction();
        for s in list.into_iter() {
            tx.delete(make_data_key(project_id, s.user_id).as_slice())?;
        }
        tx.commit()?;
''', '''            let session: Session = deserialize(&value)?;
            list.push(session.user_id);
        }

        let tx = self.db.transaction();
        for user_id in list {
            tx.delete(make_data_key(project_id, user_id))?;
        }
        tx.commit()?;
''')
keep('mss2', M+'sessions.rs', '''        let mut is_new = false;
        let mut session = match tx.get(key)? {
            None => {
                is_new = true;
                Session {
                    user_id,
                    created_at: Utc::now(),
                }
            }
            Some(value) => deserialize(&value)?,
        };

        session.created_at = time;

        let data = serialize(&session)?;
        tx.put(make_data_key(project_id, user_id), data)?;
''', '''        let prev = tx.get(&key)?;
        let is_new = prev.is_none();
        let session = match prev {
            None => Session {
                user_id,
                created_at: time,
            },
            Some(value) => Session {
                created_at: time,
                ..deserialize(&value)?
            },
        };

        tx.put(key, serialize(&session)?)?;
''')
keep('mss3', M+'sessions.rs', '''            list.push(deserialize(&value)?);
        }

        let tx = self.db.transaction();
        for s in list.into_iter() {
            if callback(&s)? {
                tx.delete(make_data_key(project_id, s.user_id).as_slice())?;
            }
        }
        tx.commit()?;
''', '''            let session: Session = deserialize(&value)?;
            list.push(session);
        }

        let tx = self.db.transaction();
        for session in &list {
            if !callback(session)? {
                continue;
            }
            let key = make_data_key(project_id, session.user_id);
            tx.delete(key)?;
        }
        tx.commit()?;
''')
keep('msc1', M+'custom_events.rs', '''            if events.is_empty() {
                return Err(MetadataError::BadRequest("empty events".to_string()));
            }

            let mut ids = vec![event.id];
            self.validate_events(project_id, &events, 0, &mut ids)?;

            event.events = events;
''', '''            if events.len() == 0 {
                return Err(MetadataError::BadRequest("empty events".to_string()));
            }

            self.validate_events(project_id, &events, 0, &mut vec![event.id])?;
            event.events = events.clone();
''')

keep('msb1', M+'backups.rs', '''            let list = self.list_(&tx)?;
            for backup in list.data {
                if backup.status == Status::Idle {
                    return Err(MetadataError::AlreadyExists(
                        "There is already an idle backup".to_string(),
                    ));
                }
            }
''', '''            let backups = self.list_(&tx)?.data;
            if backups.iter().any(|b| matches!(b.status, Status::Idle)) {
                return Err(MetadataError::AlreadyExists(
                    "There is already an idle backup".to_string(),
                ));
            }
''')
keep('msb2', M+'backups.rs', '''        let mut backup = self.get_by_id_(&tx, backup_id)?;
        backup.status = status;
        backup.updated_at = Some(Utc::now());

        let data = serialize(&backup)?;
''', '''        let backup = Backup {
            status,
            updated_at: Some(Utc::now()),
            ..self.get_by_id_(&tx, backup_id)?
        };

        let data = serialize(&backup)?;
''')
UPD = '''                let group: GroupValues = deserialize_group_values(&value)?;
                let mut vals = group.values.clone();
                for value in values {
                    let mut found = false;
                    for (gid, gvalue) in group.values.iter().enumerate() {
                        if gvalue.property_id == value.property_id {
                            vals[gid] = value.clone();
                            found = true;
                            break;
                        }
                    }
                    if !found {
                        vals.push(value);
                    }
                }
                let group = GroupValues {
                    id: group.id,
                    values: vals,
                };
'''
keep('msg1', M+'groups.rs', UPD, '''                let GroupValues { id, values: old } = deserialize_group_values(&value)?;
                let mut vals = old.clone();
                for value in values {
                    match old.iter().position(|v| v.property_id == value.property_id) {
                        Some(pos) => vals[pos] = value,
                        None => vals.push(value),
                    }
                }
                let group = GroupValues { id, values: vals };
''')
keep('msg2', M+'groups.rs', UPD, '''                let mut group = deserialize_group_values(&value)?;
                let known = group.values.len();
                for value in values {
                    let place = group.values[..known]
                        .iter_mut()
                        .find(|v| v.property_id == value.property_id);
                    if let Some(v) = place {
                        *v = value;
                    } else {
                        group.values.push(value);
                    }
                }
''')
keep('msg3', M+'groups.rs', '''        let tx = self.db.transaction();
        let key = format!("projects/{project_id}/groups/names/{name}");
        let group = match tx.get(key.as_bytes())? {
            None => {
                let id = next_zero_seq(
                    &tx,
                    make_id_seq_key(project_ns(project_id, "groups".as_bytes()).as_slice()),
                )?;

                if id >= GROUPS_COUNT as u64 {
                    return Err(MetadataError::BadRequest(
                        "group name limit reached".to_string(),
                    ));
                }
                let group = Group {
                    id,
                    name,
                    display_name,
                };
                tx.put(key.as_bytes(), serialize_group(&group)?)?;

                group
            }
            Some(value) => deserialize_group(&value)?,
        };

        tx.commit()?;

        Ok(group)
''', '''        let key = format!("projects/{project_id}/groups/names/{name}");
        let tx = self.db.transaction();
        if let Some(value) = tx.get(key.as_bytes())? {
            return deserialize_group(&value);
        }

        let id = next_zero_seq(&tx, make_id_seq_key(&project_ns(project_id, b"groups")))?;
        if id < GROUPS_COUNT as u64 {
            let group = Group {
                id,
                name,
                display_name,
            };
            tx.put(key, serialize_group(&group)?)?;
            tx.commit()?;
            Ok(group)
        } else {
            Err(MetadataError::BadRequest(
                "group name limit reached".to_string(),
            ))
        }
''')
keep('msg4', M+'groups.rs', '''                let anonymous_id =
                    self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?;
                let group = GroupValues {
                    id: anonymous_id,
                    values,
                };
                tx.put(user_key, serialize_group_values(&group)?)?;

                group
''', '''                let group = GroupValues {
                    id: self.get_or_create_anonymous_id_(&tx, project_id, group_id, anonymous)?,
                    values,
                };
                let data = serialize_group_values(&group)?;
                tx.put(&user_key, data)?;
                group
''')
