I = 'src/ingester/src/'

# lib.rs
keep('ing1', I+'lib.rs', '''    let val = if prop.property.is_dictionary {
        if let PropValue::String(str_v) = &prop.value {
            let dict_id = dict.get_key_or_create(
                ctx.project_id.unwrap(),
                tbl,
                prop.property.column_name().as_str(),
                str_v.as_str(),
            )?;
            match prop.property.dictionary_type.clone().unwrap() {
                DictionaryType::Int8 => Value::Int8(Some(dict_id as i8)),
                DictionaryType::Int16 => Value::Int16(Some(dict_id as i16)),
                DictionaryType::Int32 => Value::Int32(Some(dict_id as i32)),
                DictionaryType::Int64 => Value::Int64(Some(dict_id as i64)),
            }
        } else {
            return Err(IngesterError::Internal(
                "property should be string".to_string(),
            ));
        }
    } else {
        match''', '''    if prop.property.is_dictionary {
        let PropValue::String(str_v) = &prop.value else {
            return Err(IngesterError::Internal(
                "property should be string".to_string(),
            ));
        };
        let column = prop.property.column_name();
        let project_id = ctx.project_id.unwrap();
        let dict_id = dict.get_key_or_create(project_id, tbl, &column, str_v)?;
        let value = match prop.property.dictionary_type.as_ref().unwrap() {
            DictionaryType::Int8 => Value::Int8(Some(dict_id as i8)),
            DictionaryType::Int16 => Value::Int16(Some(dict_id as i16)),
            DictionaryType::Int32 => Value::Int32(Some(dict_id as i32)),
            DictionaryType::Int64 => Value::Int64(Some(dict_id as i64)),
        };
        return Ok(value);
    }
    let val = {
        match''')
keep('ing2', I+'lib.rs', '''            (DType::Decimal, PropValue::Number(v)) => {
                let mut v = *v;
                v.rescale(DECIMAL_SCALE as u32);
                // rescale stops short when the number has too many digits
                if v.scale() != DECIMAL_SCALE as u32 {
                    return Err(out_of_range(prop));
                }
                Value::Decimal(Some(v.mantissa()))
            }
''', '''            (DType::Decimal, PropValue::Number(number)) => {
                let scale = DECIMAL_SCALE as u32;
                let mut rescaled = number.to_owned();
                rescaled.rescale(scale);
                if rescaled.scale() == scale {
                    Value::Decimal(Some(rescaled.mantissa()))
                } else {
                    return Err(out_of_range(prop));
                }
            }
''')
keep('ing3', I+'lib.rs', '''            (DType::Int8, PropValue::Number(v)) => {
                Value::Int8(Some(v.to_i8().ok_or_else(|| out_of_range(prop))?))
            }
            (DType::Int16, PropValue::Number(v)) => {
                Value::Int16(Some(v.to_i16().ok_or_else(|| out_of_range(prop))?))
            }
''', '''            (DType::Int8, PropValue::Number(v)) => match v.to_i8() {
                Some(v) => Value::Int8(Some(v)),
                None => return Err(out_of_range(prop)),
            },
            (DType::Int16, PropValue::Number(v)) => {
                let Some(v) = v.to_i16() else {
                    return Err(out_of_range(prop));
                };
                Value::Int16(Some(v))
            }
''')
# executor
keep('ing4', I+'executor.rs', '''    let data_type = match val {
        PropValue::Date(_) => DType::Timestamp,
        PropValue::String(_) => DType::String,
        PropValue::Number(_) => DType::Decimal,
        PropValue::Bool(_) => DType::Boolean,
    };

    let (is_dictionary, dictionary_type) = if let PropValue::String(_) = val {
        (true, Some(DictionaryType::Int64))
    } else {
        (false, None)
    };
''', '''    let (data_type, dictionary_type) = match &val {
        PropValue::String(_) => (DType::String, Some(DictionaryType::Int64)),
        PropValue::Number(_) => (DType::Decimal, None),
        PropValue::Bool(_) => (DType::Boolean, None),
        PropValue::Date(_) => (DType::Timestamp, None),
    };
    let is_dictionary = dictionary_type.is_some();
''')
keep('ing5', I+'executor.rs', '''    let resolved_props = props
        .iter()
        .map(|(k, v)| resolve_property(ctx, properties, db, typ.clone(), k.to_owned(), v.clone()))
        .collect::<Result<Vec<PropertyAndValue>>>()?;
    Ok(resolved_props)
''', '''    let mut resolved = Vec::with_capacity(props.len());
    for (name, value) in props {
        resolved.push(resolve_property(
            ctx,
            properties,
            db,
            typ.clone(),
            name.clone(),
            value.clone(),
        )?);
    }
    Ok(resolved)
''')
keep('ing6', I+'executor.rs', '''            (Some(user_id), None) => {
                let group = self.md.groups.get_or_create(
                    ctx.project_id.unwrap(),
                    GROUP_USER_ID as u64,
                    user_id,
                    vec![],
                )?;
                self.md.dictionaries.create_key(
                    ctx.project_id.unwrap(),
                    TABLE_EVENTS,
                    group_col(GROUP_USER_ID).as_str(),
                    group.id,
                    user_id.as_str(),
                )?;

                (group.id, Some(group))
            }
            (None, Some(user_id)) => {
                let id = self.md.groups.get_or_create_anonymous_id(
                    ctx.project_id.unwrap(),
                    GROUP_USER_ID as u64,
                    user_id.as_str(),
                )?;

                self.md.dictionaries.create_key(
                    ctx.project_id.unwrap(),
                    TABLE_EVENTS,
                    group_col(GROUP_USER_ID).as_str(),
                    id,
                    user_id.as_str(),
                )?;

                (id, None)
            }
            (Some(user_id), Some(anonymous_id)) => {
                let group = self.md.groups.merge_with_anonymous(
                    ctx.project_id.unwrap(),
                    GROUP_USER_ID as u64,
                    anonymous_id.as_str(),
                    user_id.as_str(),
                    vec![],
                )?;
                self.md.dictionaries.create_key(
                    ctx.project_id.unwrap(),
                    TABLE_EVENTS,
                    group_col(GROUP_USER_ID).as_str(),
                    group.id,
                    user_id.as_str(),
                )?;

                (group.id, None)
            }
            _ => {
                return Err(IngesterError::BadRequest(
                    "user_id or anonymous_id must be set".to_string(),
                ));
            }
        };
''', '''            (Some(user_id), None) => {
                let group = self.md.groups.get_or_create(
                    project.id,
                    GROUP_USER_ID as u64,
                    user_id,
                    vec![],
                )?;

                (group.id, Some(group))
            }
            (None, Some(user_id)) => {
                let id = self.md.groups.get_or_create_anonymous_id(
                    project.id,
                    GROUP_USER_ID as u64,
                    user_id.as_str(),
                )?;

                (id, None)
            }
            (Some(user_id), Some(anonymous_id)) => {
                let group = self.md.groups.merge_with_anonymous(
                    project.id,
                    GROUP_USER_ID as u64,
                    anonymous_id.as_str(),
                    user_id.as_str(),
                    vec![],
                )?;

                (group.id, None)
            }
            _ => {
                return Err(IngesterError::BadRequest(
                    "user_id or anonymous_id must be set".to_string(),
                ));
            }
        };
        // the name the user goes by
        let user_key = match (&req.user_id, &req.anonymous_id) {
            (Some(id), _) => id,
            (None, Some(id)) => id,
            (None, None) => unreachable!(),
        };
        self.md.dictionaries.create_key(
            project.id,
            TABLE_EVENTS,
            group_col(GROUP_USER_ID).as_str(),
            user_id,
            user_key.as_str(),
        )?;
''')
keep('ing7', I+'executor.rs', '''            let mut resolved_groups = vec![];
            // add user as a first group
            if let Some(user_group) = user_group {
                resolved_groups.push((0, user_group));
            }
''', '''            // add user as a first group
            let mut resolved_groups = match user_group {
                Some(user_group) => vec![(0, user_group)],
                None => Vec::new(),
            };
''')
keep('ing8', I+'executor.rs', '''        let event_id = md_event.id;
        req.resolved_event = Some(md_event);
        if let Some(props) = &req.resolved_properties {
            self.md.events.try_attach_properties(
                ctx.project_id.unwrap(),
                event_id,
                props.iter().map(|p| p.property.id).collect(),
            )?;
        }
''', '''        if let Some(props) = &req.resolved_properties {
            let ids = props.iter().map(|p| p.property.id).collect::<Vec<_>>();
            self.md
                .events
                .try_attach_properties(project.id, md_event.id, ids)?;
        }
        req.resolved_event = Some(md_event);
''')
keep('ing9', I+'executor.rs', '''        for transformer in &self.transformers {
            req = transformer.process(&ctx, req)?;
        }
        for dest in &self.destinations {
            dest.send(&ctx, req.clone())?;
        }

        self.md
            .projects
            .increment_events_counter(ctx.project_id.unwrap())?;
''', '''        let req = self
            .transformers
            .iter()
            .try_fold(req, |req, transformer| transformer.process(&ctx, req))?;
        self.destinations
            .iter()
            .try_for_each(|dest| dest.send(&ctx, req.clone()))?;

        self.md.projects.increment_events_counter(project.id)?;
''')
keep('ing10', I+'executor.rs', '''        let vals = if let Some(props) = &req.resolved_properties {
            let mut vals = vec![];
            for prop in props {
''', '''        let vals = if let Some(props) = req.resolved_properties.as_ref() {
            let mut vals = Vec::with_capacity(props.len());
            for prop in props.iter() {
''')
keep('ing11', I+'executor.rs', '''        let group_vals_id = resolved_group_values.id;
        req.group_id = group.id;
        req.resolved_group_values = Some(resolved_group_values);

        self.md.dictionaries.create_key(
            ctx.project_id.unwrap(),
            group_col(req.group_id as usize).as_str(),
            GROUP_COLUMN_ID,
            group_vals_id,
            req.id.as_str(),
        )?;
''', '''        let table = group_col(group.id as usize);
        self.md.dictionaries.create_key(
            project.id,
            &table,
            GROUP_COLUMN_ID,
            resolved_group_values.id,
            &req.id,
        )?;

        req = Identify {
            group_id: group.id,
            resolved_group_values: Some(resolved_group_values),
            ..req
        };
''')
keep('ing12', I+'executor.rs', '''            event_properties: req
                .resolved_properties
                .clone()
                .map(|props| props.iter().map(|p| p.property.id).collect::<Vec<u64>>()),
''', '''            event_properties: match &req.resolved_properties {
                Some(props) => Some(props.iter().map(|p| p.property.id).collect()),
                None => None,
            },
''')
T = I + 'destinations/local/track.rs'
keep('ing13', T, '''            let mut found = HashMap::new();
            let mut groups = groups
                .iter()
                .map(|(group_id, group)| {
                    found.insert(*group_id, ());
                    NamedValue::new(group_col(*group_id), Value::Int64(Some(group.id as i64)))
                })
                .collect::<Vec<_>>();

            for g in 1..GROUPS_COUNT {
                if !found.contains_key(&g) {
                    groups.push(NamedValue::new(group_col(g), Value::Int64(None)))
                }
            }
            groups
''', '''            let mut found = std::collections::HashSet::new();
            let mut res = vec![];
            for (group_id, group) in groups {
                found.insert(*group_id);
                res.push(NamedValue::new(
                    group_col(*group_id),
                    Value::Int64(Some(group.id as i64)),
                ));
            }

            let missing = (1..GROUPS_COUNT).filter(|g| !found.contains(g));
            res.extend(missing.map(|g| NamedValue::new(group_col(g), Value::Int64(None))));
            res
''', T, 'use std::collections::HashMap;\n', '')
keep('ing14', T, '''        let props = req
            .resolved_properties
            .as_ref()
            .cloned()
            .unwrap_or_else(Vec::new);

        let mut prop_values = vec![];
        for prop in &props {
            let value = property_to_value(ctx, TABLE_EVENTS, prop, &self.md.dictionaries)?;
            prop_values.push(NamedValue::new(prop.property.column_name(), value));
        }
''', '''        let mut prop_values = vec![];
        if let Some(props) = &req.resolved_properties {
            for prop in props {
                let value = property_to_value(ctx, TABLE_EVENTS, prop, &self.md.dictionaries)?;
                prop_values.push(NamedValue::new(prop.property.column_name(), value));
            }
        }
''')
keep('ing15', T, '''        let props = req
            .resolved_properties
            .as_ref()
            .cloned()
            .unwrap_or_else(Vec::new);

        let mut prop_values = vec![];
        for prop in &props {
            let value = property_to_value(ctx, TABLE_EVENTS, prop, &self.md.dictionaries)?;
            prop_values.push(NamedValue::new(prop.property.column_name(), value));
        }
''', '''        let props = req.resolved_properties.clone().unwrap_or_default();

        let mut prop_values = props
            .iter()
            .map(|prop| {
                property_to_value(ctx, TABLE_EVENTS, prop, &self.md.dictionaries)
                    .map(|value| NamedValue::new(prop.property.column_name(), value))
            })
            .collect::<Result<Vec<_>>>()?;
''')
keep('ing16', T, '''            if let Some(medium) = &campaign.medium {
                let property = self
                    .md
                    .event_properties
                    .get_by_name(ctx.project_id.unwrap(), EVENT_PROPERTY_UTM_MEDIUM)?;
                let value = PropValue::String(medium.to_owned());

                let value = property_to_value(
                    ctx,
                    TABLE_EVENTS,
                    &PropertyAndValue {
                        property: property.clone(),
                        value,
                    },
                    &self.md.dictionaries,
                )?;
                utm.push(NamedValue::new(property.column_name(), value));
            }

            if let Some(campaign) = &campaign.campaign {
                let property = self
                    .md
                    .event_properties
                    .get_by_name(ctx.project_id.unwrap(), EVENT_PROPERTY_UTM_CAMPAIGN)?;
                let value = PropValue::String(campaign.to_owned());
                let value = property_to_value(
                    ctx,
                    TABLE_EVENTS,
                    &PropertyAndValue {
                        property: property.clone(),
                        value,
                    },
                    &self.md.dictionaries,
                )?;
                utm.push(NamedValue::new(property.column_name(), value));
            }

            if let Some(term) = &campaign.term {
                let property = self
                    .md
                    .event_properties
                    .get_by_name(ctx.project_id.unwrap(), EVENT_PROPERTY_UTM_TERM)?;
                let value = PropValue::String(term.to_owned());
                let value = property_to_value(
                    ctx,
                    TABLE_EVENTS,
                    &PropertyAndValue {
                        property: property.clone(),
                        value,
                    },
                    &self.md.dictionaries,
                )?;
                utm.push(NamedValue::new(property.column_name(), value));
            }

            if let Some(content) = &campaign.content {
                let property = self
                    .md
                    .event_properties
                    .get_by_name(ctx.project_id.unwrap(), EVENT_PROPERTY_UTM_CONTENT)?;
                let value = PropValue::String(content.to_owned());
                let value = property_to_value(
                    ctx,
                    TABLE_EVENTS,
                    &PropertyAndValue {
                        property: property.clone(),
                        value,
                    },
                    &self.md.dictionaries,
                )?;
                utm.push(NamedValue::new(property.column_name(), value));
            }
''', '''            let rest = [
                (EVENT_PROPERTY_UTM_MEDIUM, &campaign.medium),
                (EVENT_PROPERTY_UTM_CAMPAIGN, &campaign.campaign),
                (EVENT_PROPERTY_UTM_TERM, &campaign.term),
                (EVENT_PROPERTY_UTM_CONTENT, &campaign.content),
            ];
            for (name, value) in rest {
                if let Some(value) = value {
                    let property = self
                        .md
                        .event_properties
                        .get_by_name(ctx.project_id.unwrap(), name)?;
                    let column = property.column_name();
                    let pv = PropertyAndValue {
                        property,
                        value: PropValue::String(value.to_owned()),
                    };
                    let value = property_to_value(ctx, TABLE_EVENTS, &pv, &self.md.dictionaries)?;
                    utm.push(NamedValue::new(column, value));
                }
            }
''')
keep('ing17', T, '''        let event_id = req.resolved_event.as_ref().unwrap().id;

        let values = [
            vec![
                NamedValue::new(
                    COLUMN_PROJECT_ID.to_string(),
                    Value::Int64(Some(ctx.project_id.unwrap() as i64)),
                ),
                NamedValue::new(
                    group_col(GROUP_USER_ID),
                    Value::Int64(Some(req.resolved_user_id.unwrap())),
                ),
            ],
            groups,
            vec![
                NamedValue::new(
                    COLUMN_CREATED_AT.to_string(),
                    Value::Timestamp(Some(req.timestamp.timestamp_millis())),
                ),
                NamedValue::new(
                    COLUMN_EVENT_ID.to_string(),
                    Value::Int64(Some(record_id as i64)),
                ),
                NamedValue::new(
                    COLUMN_EVENT.to_string(),
                    Value::Int64(Some(event_id as i64)),
                ),
            ],
            prop_values.clone(),
        ]
        .concat();
''', '''        let event = req.resolved_event.as_ref().unwrap();

        let mut values = vec![
            NamedValue::new(
                COLUMN_PROJECT_ID.to_string(),
                Value::Int64(Some(ctx.project_id.unwrap() as i64)),
            ),
            NamedValue::new(
                group_col(GROUP_USER_ID),
                Value::Int64(req.resolved_user_id),
            ),
        ];
        values.extend(groups);
        values.push(NamedValue::new(
            COLUMN_CREATED_AT.to_string(),
            Value::Timestamp(Some(req.timestamp.timestamp_millis())),
        ));
        values.push(NamedValue::new(
            COLUMN_EVENT_ID.to_string(),
            Value::Int64(Some(record_id as i64)),
        ));
        values.push(NamedValue::new(
            COLUMN_EVENT.to_string(),
            Value::Int64(Some(event.id as i64)),
        ));
        values.extend(prop_values);
''')
ID = I + 'destinations/local/identify.rs'
keep('ing18', ID, '''        let mut prop_values = vec![];

        prop_values.push(NamedValue::new(
            GROUP_COLUMN_PROJECT_ID.to_string(),
            Value::Int64(Some(ctx.project_id.unwrap() as i64)),
        ));
        prop_values.push(NamedValue::new(
            GROUP_COLUMN_ID.to_string(),
            Value::Int64(Some(req.resolved_group_values.clone().unwrap().id as i64)),
        ));
        let version = self
            .md
            .groups
            .next_record_sequence(ctx.project_id.unwrap(), req.group_id)?;

        prop_values.push(NamedValue::new(
            GROUP_COLUMN_VERSION.to_string(),
            Value::Int64(Some(version as i64)),
        ));

        prop_values.push(NamedValue::new(
            GROUP_COLUMN_CREATED_AT.to_string(),
            Value::Timestamp(Some(req.timestamp.timestamp_millis())),
        ));

        for value in &req.resolved_group_values.unwrap().values {
''', '''        let project_id = ctx.project_id.unwrap();
        let group_values = req.resolved_group_values.unwrap();
        let version = self
            .md
            .groups
            .next_record_sequence(project_id, req.group_id)?;

        let mut prop_values = vec![
            NamedValue::new(
                GROUP_COLUMN_PROJECT_ID.to_string(),
                Value::Int64(Some(project_id as i64)),
            ),
            NamedValue::new(
                GROUP_COLUMN_ID.to_string(),
                Value::Int64(Some(group_values.id as i64)),
            ),
            NamedValue::new(
                GROUP_COLUMN_VERSION.to_string(),
                Value::Int64(Some(version as i64)),
            ),
            NamedValue::new(
                GROUP_COLUMN_CREATED_AT.to_string(),
                Value::Timestamp(Some(req.timestamp.timestamp_millis())),
            ),
        ];

        for value in group_values.values.iter() {
''')
G = I + 'transformers/geo/'
keep('ing19', G+'mod.rs', '''    if let Some(country) = city.country {
        if let Some(names) = country.names {
            if let Some(name) = names.get("en") {
''', '''    if let Some(names) = city.country.and_then(|country| country.names) {
        {
            if let Some(name) = names.get("en") {
''')
keep('ing20', G+'track.rs', '''        let props = if let Some(props) = &req.resolved_properties {
            props.to_owned()
        } else {
            vec![]
        };

        match resolve_properties(ctx, &req.context, props, &self.properties, &self.city_rdr) {
            Ok(p) => {
                if !p.is_empty() {
                    req.resolved_properties = Some(p);
                }
            }
            Err(e) => match e {
                IngesterError::Maxmind(e) => match e {
                    MaxMindDBError::AddressNotFoundError(_) => {}
                    other => return Err(other.into()),
                },
                other => return Err(other),
            },
        };
''', '''        let props = req.resolved_properties.clone().unwrap_or_default();

        match resolve_properties(ctx, &req.context, props, &self.properties, &self.city_rdr) {
            Ok(p) if p.is_empty() => {}
            Ok(p) => req.resolved_properties = Some(p),
            Err(IngesterError::Maxmind(MaxMindDBError::AddressNotFoundError(_))) => {}
            Err(other) => return Err(other),
        };
''')
U = I + 'transformers/user_agent/'
keep('ing21', U+'track.rs', '''        let mut props = if let Some(props) = &req.resolved_properties {
            props.to_owned()
        } else {
            vec![]
        };
        props = resolve_properties(ctx, &req.context, props, &self.properties, &self.ua_parser)?;
        if !props.is_empty() {
            req.resolved_properties = Some(props);
        }

        Ok(req)
''', '''        let known = req.resolved_properties.clone().unwrap_or_else(Vec::new);
        let props =
            resolve_properties(ctx, &req.context, known, &self.properties, &self.ua_parser)?;
        if props.is_empty() {
            return Ok(req);
        }

        Ok(Track {
            resolved_properties: Some(props),
            ..req
        })
''')
keep('ing22', U+'mod.rs', '''        let mut s = String::new();
        s.push_str(client.os.family.as_ref());
        if let Some(major) = &client.os.major {
            s.push(' ');
            s.push_str(major.to_string().as_ref());
''', '''        let mut s = client.os.family.to_string();
        if let Some(major) = &client.os.major {
            s.push_str(" ");
            s += major.as_ref();
''')
H = I + 'sources/http/mod.rs'
keep('ing23', H, '''        let raw_props = req.properties.map(|v| {
            v.into_iter()
                .map(|(k, v)| (k.to_owned(), v.into()))
                .collect::<_>()
        });
''', '''        let raw_props = match req.properties {
            Some(props) => {
                let mut res: HashMap<String, crate::PropValue> = HashMap::new();
                for (k, v) in props {
                    res.insert(k, v.into());
                }
                Some(res)
            }
            None => None,
        };
''')
keep('ing24', H, '''        let track = crate::Track {
            user_id: req.user_id.clone(),
            anonymous_id: req.anonymous_id.clone(),
            resolved_user_id: None,
            timestamp: req.timestamp.unwrap_or_else(Utc::now),
            context,
            event: req.event.clone(),
''', '''        let timestamp = match req.timestamp {
            Some(timestamp) => timestamp,
            None => Utc::now(),
        };
        let track = crate::Track {
            user_id: req.user_id,
            anonymous_id: req.anonymous_id,
            resolved_user_id: None,
            timestamp,
            context,
            event: req.event,
''')
