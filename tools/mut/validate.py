VP = 'src/platform/src/'
VQ = 'src/query/src/'
keep('v1', VP + 'lib.rs', '''    md.group_properties
        .get(group)
        .ok_or_else(|| PlatformError::BadRequest("group id is out of range".to_string()))
''', '''    match md.group_properties.get(group) {
        Some(props) => Ok(props),
        None => Err(PlatformError::BadRequest(
            "group id is out of range".to_string(),
        )),
    }
''')
keep('v2', VP + 'lib.rs', '''    let mut allow_empty_values = false;
    match operation {
        PropValueOperation::Gt''', '''    let allow_empty_values = matches!(
        operation,
        PropValueOperation::True
            | PropValueOperation::False
            | PropValueOperation::Exists
            | PropValueOperation::Empty
    );
    match operation {
        PropValueOperation::Gt''', VP + 'lib.rs', '''                    "{err_prefix}\\"{}\\" is not boolean, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
            allow_empty_values = true;
''', '''                    "{err_prefix}\\"{}\\" is not boolean, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
''', VP + 'lib.rs', '''                    "{err_prefix}property \\"{}\\" is not nullable, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
            allow_empty_values = true;
''', '''                    "{err_prefix}property \\"{}\\" is not nullable, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
''')
keep('v3', VP + 'lib.rs', '''        | PropValueOperation::Lte => match prop.data_type {
            DType::Int8
            | DType::Int16
            | DType::Int32
            | DType::Int64
            | DType::Decimal
            | DType::Timestamp => {}
            _ => {
                return Err(PlatformError::BadRequest(format!(
                    "{err_prefix}property \\"{}\\" is not numeric, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
        },
''', '''        | PropValueOperation::Lte => {
            if !is_numeric(&prop.data_type) {
                return Err(PlatformError::BadRequest(format!(
                    "{err_prefix}property \\"{}\\" is not numeric, but operation is \\"{:?}\\"",
                    prop.name, operation
                )));
            }
        }
''', VP + 'lib.rs', '''                    Value::Number(_) => match prop.data_type {
                        DType::Int8
                        | DType::Int16
                        | DType::Int32
                        | DType::Int64
                        | DType::Decimal
                        | DType::Timestamp => {}
                        _ => {
                            return Err(PlatformError::BadRequest(format!(
                                "{err_prefix}property \\"{}\\" is not numeric, but value {vid} is \\"{value:?}\\"",
                                prop.name
                            )));
                        }
                    },
''', '''                    Value::Number(_) if is_numeric(&prop.data_type) => {}
                    Value::Number(_) => {
                        return Err(PlatformError::BadRequest(format!(
                            "{err_prefix}property \\"{}\\" is not numeric, but value {vid} is \\"{value:?}\\"",
                            prop.name
                        )));
                    }
''', VP + 'lib.rs', '''pub fn validate_event_filter_property(
''', '''fn is_numeric(t: &DType) -> bool {
    match t {
        DType::Int8 | DType::Int16 | DType::Int32 | DType::Int64 => true,
        DType::Decimal | DType::Timestamp => true,
        _ => false,
    }
}

pub fn validate_event_filter_property(
''')
keep('v4', VP + 'lib.rs', '''    match value {
        None => {
            if !prop.nullable {
                return Err(PlatformError::BadRequest(format!(
                    "{err_prefix}property \\"{}\\" is not nullable",
                    prop.name
                )));
            }
        }
        Some(values) => {
            if !allow''', '''    match value {
        None if prop.nullable => {}
        None => {
            return Err(PlatformError::BadRequest(format!(
                "{}property \\"{}\\" is not nullable",
                err_prefix, prop.name
            )));
        }
        Some(values) => {
            if !allow''')
keep('v5', VP + 'lib.rs', '''    match event {
        EventRef::Regular { event_name } => {
            md.events
                .get_by_name(project_id, event_name)
                .map_err(|err| PlatformError::BadRequest(format!("event {event_id}: {err}")))?;
        }
        EventRef::Custom { event_id } => {
            md.custom_events
                .get_by_id(project_id, *event_id)
                .map_err(|err| PlatformError::BadRequest(format!("event {event_id}: {err}")))?;
        }
    }

    Ok(())
''', '''    let found = match event {
        EventRef::Regular { event_name } => {
            md.events.get_by_name(project_id, event_name).map(|_| ())
        }
        EventRef::Custom { event_id: id } => {
            md.custom_events.get_by_id(project_id, *id).map(|_| ())
        }
    };

    found.map_err(|err| PlatformError::BadRequest(format!("event {event_id}: {err}")))
''')
keep('v6', VP + 'lib.rs', '''    match property {
        PropertyRef::Group {
            property_name,
            group,
        } => {
            group_properties(md, *group)?
                .get_by_name(project_id, property_name)
                .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
        }
        PropertyRef::Event { property_name } => {
            md.event_properties
                .get_by_name(project_id, property_name)
                .map_err(|err| PlatformError::BadRequest(format!("{err_prefix}: {err}")))?;
        }
        _ => {
            return Err(PlatformError::Unimplemented(
                "invalid property type".to_string(),
            ));
        }
    }
    Ok(())
''', '''    let (props, name) = match property {
        PropertyRef::Group {
            property_name,
            group,
        } => (group_properties(md, *group)?, property_name),
        PropertyRef::Event { property_name } => (&md.event_properties, property_name),
        PropertyRef::Custom { .. } => {
            return Err(PlatformError::Unimplemented(
                "invalid property type".to_string(),
            ));
        }
    };
    match props.get_by_name(project_id, name) {
        Ok(_) => Ok(()),
        Err(err) => Err(PlatformError::BadRequest(format!("{err_prefix}: {err}"))),
    }
''')
keep('v7', VP + 'event_segmentation.rs', '''    if req.group > GROUPS_COUNT - 1 {
''', '''    if req.group >= GROUPS_COUNT {
''', VP + 'event_segmentation.rs', '''    if let QueryTime::Between { from, to } = req.time {
        if from > to {
            return Err(PlatformError::BadRequest(
                "from time must be less than to time".to_string(),
            ));
        }
    }
''', '''    match req.time {
        QueryTime::Between { from, to } if to < from => {
            return Err(PlatformError::BadRequest(
                "from time must be less than to time".to_string(),
            ));
        }
        _ => {}
    }
''')
keep('v8', VP + 'event_segmentation.rs', '''        match &event.filters {
            Some(filters) => {
                for (filter_id, filter) in filters.iter().enumerate() {
                    validate_event_filter(
                        md,
                        project_id,
                        filter,
                        filter_id,
                        format!("event #{event_id}, "),
                    )?;
                }
            }
            None => {}
        }
''', '''        for (filter_id, filter) in event.filters.iter().flatten().enumerate() {
            let prefix = format!("event #{event_id}, ");
            validate_event_filter(md, project_id, filter, filter_id, prefix)?;
        }
''')
keep('v9', VP + 'event_segmentation.rs', '''            for filter_group in &filters.groups {
                if filter_group.filters.is_empty() {
                    return Err(PlatformError::BadRequest(
                        "filters field can't be empty".to_string(),
                    ));
                }
                for (filter_id, filter) in filter_group.filters.iter().enumerate() {
                    validate_event_filter(md, project_id, filter, filter_id, "".to_string())?;
                }
            }
''', '''            filters.groups.iter().try_for_each(|filter_group| {
                if filter_group.filters.is_empty() {
                    return Err(PlatformError::BadRequest(
                        "filters field can't be empty".to_string(),
                    ));
                }
                filter_group
                    .filters
                    .iter()
                    .enumerate()
                    .try_for_each(|(filter_id, filter)| {
                        validate_event_filter(md, project_id, filter, filter_id, String::new())
                    })
            })?;
''')
keep('v10', VP + 'funnel.rs', '''    if req.steps.is_empty() {
        return Err(PlatformError::BadRequest(
            "steps must not be empty".to_string(),
        ));
    }

    if req.steps.len() > 5 {
        return Err(PlatformError::BadRequest(
            "steps must not be more than 5".to_string(),
        ));
    }
''', '''    match req.steps.len() {
        0 => {
            return Err(PlatformError::BadRequest(
                "steps must not be empty".to_string(),
            ));
        }
        1..=5 => {}
        _ => {
            return Err(PlatformError::BadRequest(
                "steps must not be more than 5".to_string(),
            ));
        }
    }
''')
keep('v11', VP + 'funnel.rs', '''            StepOrder::Any { steps } => steps.iter().try_for_each(|(from, to)| {
                if *from >= req.steps.len() {
                    return Err(PlatformError::BadRequest(
                        "step_order: from step index out of range".to_string(),
                    ));
                }
                if *to >= req.steps.len() {
                    return Err(PlatformError::BadRequest(
                        "step_order: to step index out of range".to_string(),
                    ));
                }
                Ok(())
            })?,
''', '''            StepOrder::Any { steps } => {
                let count = req.steps.len();
                for (from, to) in steps {
                    if *from >= count {
                        return Err(PlatformError::BadRequest(
                            "step_order: from step index out of range".to_string(),
                        ));
                    } else if *to >= count {
                        return Err(PlatformError::BadRequest(
                            "step_order: to step index out of range".to_string(),
                        ));
                    }
                }
            }
''')
keep('v12', VP + 'funnel.rs', '''            match &exclude.steps {
                Some(steps) => match steps {
                    ExcludeSteps::Between { from, to } => {
                        if *from >= req.steps.len() {
                            return Err(PlatformError::BadRequest(
                                "exclude: from step index out of range".to_string(),
                            ));
                        }
                        if *to >= req.steps.len() {
                            return Err(PlatformError::BadRequest(
                                "exclude: to step index out of range".to_string(),
                            ));
                        }
                    }
                    ExcludeSteps::All => {}
                },
                None => {}
            }
''', '''            if let Some(ExcludeSteps::Between { from, to }) = &exclude.steps {
                for (step, what) in [(*from, "from"), (*to, "to")] {
                    if step >= req.steps.len() {
                        return Err(PlatformError::BadRequest(format!(
                            "exclude: {what} step index out of range"
                        )));
                    }
                }
            }
''')
keep('v13', VP + 'funnel.rs', '''            let mut g = HashMap::new();
            for b in breakdowns {
                g.insert(b.to_owned(), ());
            }
            if g.len() != breakdowns.len() {
                return Err(PlatformError::BadRequest(
                    "use only unique breakdowns".to_string(),
                ));
            }
''', '''            for (i, b) in breakdowns.iter().enumerate() {
                if breakdowns[..i].contains(b) {
                    return Err(PlatformError::BadRequest(
                        "use only unique breakdowns".to_string(),
                    ));
                }
            }
''')
keep('v14', VP + 'funnel.rs', '''    if let Some(filter) = &req.filter {
        match filter {
            Filter::DropOffOnAnyStep => {}
            Filter::DropOffOnStep { .. } => {}
            Filter::TimeToConvert { from, to } => {
                if from > to {
                    return Err(PlatformError::BadRequest(
                        "from time must be less than to time".to_string(),
                    ));
                }
            }
        }
    }
''', '''    if let Some(Filter::TimeToConvert { from, to }) = &req.filter
        && from > to
    {
        return Err(PlatformError::BadRequest(
            "from time must be less than to time".to_string(),
        ));
    }
''')
keep('v15', VP + 'event_records.rs', '''            for (idx, prop) in props.iter().enumerate() {
                match prop {
                    PropertyRef::Group {
                        property_name,
                        group,
                    } => group_properties(md, *group)?
                        .get_by_name(project_id, property_name)
                        .map_err(|err| {
                            PlatformError::BadRequest(format!("property {idx}: {err}"))
                        })?,
                    PropertyRef::Event { property_name } => md
                        .event_properties
                        .get_by_name(project_id, property_name)
                        .map_err(|err| {
                            PlatformError::BadRequest(format!("property {idx}: {err}"))
                        })?,
                    _ => {
                        return Err(PlatformError::Unimplemented(
                            "invalid property type".to_string(),
                        ));
                    }
                };
            }
''', '''            for (idx, prop) in props.iter().enumerate() {
                crate::validate_event_property(md, project_id, prop, format!("property {idx}"))?;
            }
''')
keep('v16', VP + 'properties.rs', '''    if let Some(filter) = &req.filter {
        validate_event_filter_property(
            md,
            project_id,
            &req.property,
            &filter.operation,
            &filter.value,
            "".to_string(),
        )?;
    }
    Ok(())
''', '''    match &req.filter {
        None => Ok(()),
        Some(filter) => validate_event_filter_property(
            md,
            project_id,
            &req.property,
            &filter.operation,
            &filter.value,
            String::new(),
        ),
    }
''')
keep('v17', VP + 'event_segmentation.rs', '''        let lreq = req.into();
        let lreq = fix_request(&self.md, project_id, lreq)?;
        dbg!(&lreq);

        let cur_time = match query.timestamp {
            None => Utc::now(),
            Some(ts_sec) => DateTime::from_timestamp(ts_sec, 0)
                .ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?,
        };
        let ctx = query::Context {
            project_id,
            format: match &query.format {
                None => Format::Regular,
                Some(format) => match format {
                    QueryResponseFormat::Json => Format::Regular,
                    QueryResponseFormat::JsonCompact => Format::Compact,
                },
            },
            cur_time,
        };
''', '''        let cur_time = if let Some(ts_sec) = query.timestamp {
            let at = DateTime::from_timestamp(ts_sec, 0);
            at.ok_or_else(|| PlatformError::BadRequest("timestamp is out of range".to_string()))?
        } else {
            Utc::now()
        };
        let format = match query.format {
            Some(QueryResponseFormat::JsonCompact) => Format::Compact,
            Some(QueryResponseFormat::Json) | None => Format::Regular,
        };
        let lreq = fix_request(&self.md, project_id, req.into())?;
        let ctx = query::Context {
            project_id,
            format,
            cur_time,
        };
''')
keep('v18', VP + 'event_segmentation.rs', '''        if !data.columns.is_empty() && data.columns[0].data.is_empty() {
            data.columns = vec![];
        }
        let resp = match query.format {
            None => QueryResponse::columns_to_json(data.columns),
            Some(QueryResponseFormat::Json) => QueryResponse::columns_to_json(data.columns),
            Some(QueryResponseFormat::JsonCompact) => {
                QueryResponse::columns_to_json_compact(data.columns)
            }
        }?;

        Ok(resp)
''', '''        if data.columns.first().is_some_and(|c| c.data.is_empty()) {
            data.columns.clear();
        }
        match query.format {
            Some(QueryResponseFormat::JsonCompact) => {
                QueryResponse::columns_to_json_compact(data.columns)
            }
            _ => QueryResponse::columns_to_json(data.columns),
        }
''')
keep('v19', VQ + 'event_segmentation.rs', '''            if filters.is_empty() {
                out.events[event_id].filters = None;
            } else {
                let mut filters_out = vec![];
                for filter in filters.iter() {
                    let f = fix_filter(md, project_id, filter)?;
                    filters_out.push(f);
                }
                out.events[event_id].filters = Some(filters_out);
            }
''', '''            let fixed = filters
                .iter()
                .map(|filter| fix_filter(md, project_id, filter))
                .collect::<Result<Vec<_>>>()?;
            out.events[event_id].filters = (!fixed.is_empty()).then_some(fixed);
''')
keep('v20', VQ + 'event_segmentation.rs', '''    let mut out = req.clone();
    for (event_id, event) in req.events.iter().enumerate() {
        if let Some(filters) = &event.filters {
            if filters.is_empty() {
                out.events[event_id].filters = None;
            } else {
                let mut filters_out = vec![];
                for filter in filters.iter() {
                    let f = fix_filter(md, project_id, filter)?;
                    filters_out.push(f);
                }
                out.events[event_id].filters = Some(filters_out);
            }
        }
    }
''', '''    let mut out = req.clone();
    for (to, event) in out.events.iter_mut().zip(req.events.iter()) {
        if let Some(filters) = &event.filters {
            to.filters = if filters.is_empty() {
                None
            } else {
                let mut filters_out = vec![];
                for filter in filters {
                    filters_out.push(fix_filter(md, project_id, filter)?);
                }
                Some(filters_out)
            };
        }
    }
''')
keep('v21', VQ + 'event_records.rs', '''    if let Some(events) = req.events {
        let mut oe = vec![];
        for event in events.iter() {
            let mut of = vec![];
            if let Some(filters) = &event.filters {
                if filters.is_empty() {
                } else {
                    for filter in filters.iter() {
                        let f = fix_filter(md, project_id, filter)?;
                        of.push(f);
                    }
                }
            }
            let e = Event {
                event: event.event.clone(),
                filters: if of.is_empty() { None } else { Some(of) },
            };
            oe.push(e);
        }
        out.events = Some(oe);
    }
''', '''    if let Some(events) = req.events {
        let mut oe = vec![];
        for event in events {
            let filters = match event.filters {
                Some(filters) if !filters.is_empty() => {
                    let mut of = vec![];
                    for filter in &filters {
                        of.push(fix_filter(md, project_id, filter)?);
                    }
                    Some(of)
                }
                _ => None,
            };
            oe.push(Event {
                event: event.event,
                filters,
            });
        }
        out.events = Some(oe);
    }
''')
keep('v22', VQ + 'funnel.rs', '''            let mut out_exclude = exclude.to_vec();
            for (exclude_id, exclude) in exclude.iter().enumerate() {
                if let Some(filters) = &exclude.filters {
                    if filters.is_empty() {
                        out_exclude[exclude_id].filters = None;
                    } else {
                        let mut of = vec![];
                        for filter in filters.iter() {
                            of.push(fix_filter(md, project_id, filter)?);
                        }
                        out_exclude[exclude_id].filters = Some(of);
                    }
                }
            }

            out.exclude = Some(out_exclude)
''', '''            let mut out_exclude = vec![];
            for exclude in exclude {
                let mut fixed = exclude.clone();
                fixed.filters = match &exclude.filters {
                    Some(filters) if !filters.is_empty() => Some(
                        filters
                            .iter()
                            .map(|filter| fix_filter(md, project_id, filter))
                            .collect::<crate::Result<Vec<_>>>()?,
                    ),
                    _ => None,
                };
                out_exclude.push(fixed);
            }

            out.exclude = Some(out_exclude)
''')
keep('v23', VQ + 'funnel.rs', '''    if let Some(breakdowns) = &req.breakdowns
        && breakdowns.is_empty()
    {
        out.breakdowns = None;
    }

    if let Some(holding_constants) = &req.holding_constants
        && holding_constants.is_empty()
    {
        out.holding_constants = None;
    }
''', '''    out.breakdowns = req.breakdowns.clone().filter(|b| !b.is_empty());
    if req
        .holding_constants
        .as_ref()
        .is_some_and(|hc| hc.is_empty())
    {
        out.holding_constants = None;
    }
''')
keep('v24', VQ + 'lib.rs', '''            let mut ev = vec![];
            if let Some(value) = value {
                for value in value {
                    match (&prop.data_type, value) {
                        (&DType::Timestamp, &ScalarValue::Decimal128(_, _, _)) => {
                            match filter.clone() {
                                PropValueFilter::Property { value, .. } => {
                                    for value in value.unwrap().iter() {
                                        if let ScalarValue::Decimal128(Some(ts), _, _) = value {
                                            let sv = ScalarValue::TimestampMillisecond(
                                                Some(*ts as i64),
                                                None,
                                            );
                                            ev.push(sv);
                                        } else {
                                            unreachable!()
                                        }
                                    }
                                }
                            };
                        }
                        _ => ev.push(value.to_owned()),
                    }
                }
            }

            let filter = common::query::PropValueFilter::Property {
                property: property.to_owned(),
                operation: operation.to_owned(),
                value: value.as_ref().map(|_| ev),
            };
            Ok(filter)
''', '''            let value = value.as_ref().map(|values| {
                values
                    .iter()
                    .map(|value| match (&prop.data_type, value) {
                        (DType::Timestamp, ScalarValue::Decimal128(Some(ts), _, _)) => {
                            ScalarValue::TimestampMillisecond(Some(*ts as i64), None)
                        }
                        _ => value.to_owned(),
                    })
                    .collect::<Vec<_>>()
            });

            Ok(PropValueFilter::Property {
                property: property.clone(),
                operation: operation.clone(),
                value,
            })
''')
keep('v25', VP + 'lib.rs', '''        ScalarValue::Decimal128(Some(v), _, _) => {
            let d = Decimal::from_i128_with_scale(*v, DECIMAL_SCALE as u32)
                .round_dp(ROUND_DIGITS.into());
            let d_f = match d.to_f64() {
                None => {
                    panic!("can't convert decimal to f64");
                }
                Some(v) => v,
            };
            let n = match Number::from_f64(d_f) {
                None => {
                    panic!("can't make json number from f64");
                }
                Some(v) => v,
            };
            Value::Number(n)
        }
''', '''        ScalarValue::Decimal128(Some(v), _, _) => {
            let d_f = Decimal::from_i128_with_scale(*v, DECIMAL_SCALE as u32)
                .round_dp(ROUND_DIGITS.into())
                .to_f64()
                .expect("can't convert decimal to f64");
            Value::Number(Number::from_f64(d_f).expect("can't make json number from f64"))
        }
''')
keep('v26', VP + 'lib.rs', '''        Value::Number(n) => {
            let dec = Decimal::try_from(n.as_f64().unwrap()).unwrap();
            ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, dec.scale() as i8)
        }
''', '''        Value::Number(n) => {
            let number = n.as_f64().unwrap();
            let dec = Decimal::try_from(number).unwrap();
            let scale = dec.scale() as i8;
            ScalarValue::Decimal128(Some(dec.mantissa()), DECIMAL_PRECISION, scale)
        }
''')
keep('v27', VQ + 'group_records.rs', '''    if let Some(filters) = &req.filters {
        let mut of = vec![];
        if filters.is_empty() {
            out.filters = None;
        } else {
            for filter in filters.iter() {
                let f = fix_filter(md, project_id, filter)?;
                of.push(f);
            }
            out.filters = Some(of);
        }
    }

    if let Some(properties) = &req.properties {
        if properties.is_empty() {
            out.properties = None;
        }
    }

''', '''    if matches!(&req.properties, Some(p) if p.is_empty()) {
        out.properties.take();
    }

''')
