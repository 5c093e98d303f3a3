M = 'src/metadata/src/'
keep('ks1', M+'accounts.rs', '''    let role = if let Some(role) = &acc.role {
        match role {
            Role::Admin => Some(account::Role::Admin as i32),
        }
    } else {
        None
    };
''', '''    let role = acc.role.as_ref().map(|role| match role {
        Role::Admin => account::Role::Admin as i32,
    });
''')
keep('ks2', M+'dashboards.rs', '''    let tags = if let Some(tags) = &v.tags {
        tags.to_vec()
    } else {
        vec![]
    };
''', '''    let tags = v.tags.as_ref().cloned().unwrap_or_default();
''')
keep('ks3', M+'reports.rs', '''        r#type: match r.typ {
            Type::EventSegmentation => report::Type::EventSegmentation,
            Type::Funnel => report::Type::Funnel,
        } as i32,''', '''        r#type: type_to_i32(&r.typ),''', M+'reports.rs', '''// serialize report into protobuf''', '''fn type_to_i32(typ: &Type) -> i32 {
    match typ {
        Type::EventSegmentation => report::Type::EventSegmentation as i32,
        Type::Funnel => report::Type::Funnel as i32,
    }
}

// serialize report into protobuf''')
keep('ks4', M+'custom_events.rs', '''        let er = if let Some(f) = event.regular {
            EventRef::Regular(f)
        } else if let Some(f) = event.regular_name {
            EventRef::RegularName(f)
        } else {
            EventRef::Custom(event.custom.unwrap())
        };
''', '''        let er = match (event.regular, event.regular_name.clone()) {
            (Some(id), _) => EventRef::Regular(id),
            (None, Some(name)) => EventRef::RegularName(name),
            (None, None) => EventRef::Custom(event.custom.unwrap()),
        };
''')
keep('ks5', M+'teams.rs', '''        updated_at: team.updated_at.map(|t| t.timestamp()),''', '''        updated_at: match team.updated_at {
            Some(at) => Some(at.timestamp()),
            None => None,
        },''')
keep('ks6', M+'properties.rs', '''    match prop.typ {
        Type::Event => v.type_event = Some(true),
        Type::Group(g) => v.type_group = Some(g as u64),
    }
''', '''    if let Type::Group(g) = prop.typ {
        v.type_group = Some(g as u64);
    } else {
        v.type_event = Some(true);
    }
''')
keep('ks7', 'src/storage/src/table.rs', '''                        match kv {
                            KeyValue::Int8(v) => int8 = Some(*v as u32),
                            KeyValue::Int16(v) => int16 = Some(*v as u32),''', '''                        match kv {
                            KeyValue::Int16(v) => int16 = Some(*v as u32),
                            KeyValue::Int8(v) => int8 = Some(*v as u32),''')
brk('bs1', 'C13', M+'accounts.rs', '3 => ProjectRole::Member,\n                4 => ProjectRole::Reader,', '4 => ProjectRole::Member,\n                3 => ProjectRole::Reader,')
brk('bs2', 'C13', M+'pb/property.proto', 'DATA_TYPE_INT64 = 5;\n  DATA_TYPE_DECIMAL = 6;', 'DATA_TYPE_INT64 = 6;\n  DATA_TYPE_DECIMAL = 5;')
brk('bs3', 'C13', M+'teams.rs', 'updated_by: team.updated_by,\n        organization_id: team.organization_id,', 'updated_by: None,\n        organization_id: team.organization_id,')
0 and brk('bs4', 'C13', M+'custom_events.rs', '.map(|v| v as i64),\n                                        int16: None', '.map(|v| v as i64),\n                                        int16: Some(0)')
brk('bs5', 'C13', 'src/storage/src/table.rs', '''                            } else if let Some(v) = kv.int64 {
                                KeyValue::Int64(v as i64)''', '''                            } else if let Some(v) = kv.int64 {
                                KeyValue::Timestamp(v as i64)''')
brk('bs6', 'C13', 'src/storage/src/table.rs', 'is_nullable: f.is_nullable,', 'is_nullable: true,')
brk('bs7', 'C13', M+'sessions.rs', 'created_at: session.created_at.timestamp()', 'created_at: session.created_at.timestamp_millis()')
brk('bs8', 'C13', M+'groups.rs', 'group::value::Value::Int16Value(v) => Value::Int16(Some(v as i16))', 'group::value::Value::Int16Value(v) => Value::Int16(Some(v as i8 as i16))')
brk('bs9', 'C13', M+'pb/team.proto', 'int64  created_at = 2', 'int64  created_at = 8')
brk('bs10', 'C13', M+'backups.rs', "        path: from.gcp_path,", "        path: from.s3_path,") if 0 else None
brk('bs11', 'C13', M+'backups.rs', "path: from.gcp_path,", "path: from.s3_path,")
brk('bs12', 'C13', M+'custom_events.rs', "Some(i128::from_le_bytes(v.as_slice()", "Some(i128::from_be_bytes(v.as_slice()")
brk('bs13', 'C13', M+'dashboards.rs', "created_at: v.created_at.timestamp(),", "created_at: v.updated_at.unwrap_or(v.created_at).timestamp(),")
