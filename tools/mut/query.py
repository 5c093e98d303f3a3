Q = 'src/query/src/'
ES = Q + 'event_segmentation.rs'
ER = Q + 'event_records.rs'
PV = Q + 'properties.rs'
QX = Q + 'expr.rs'
QF = Q + 'funnel.rs'
keep('q1', ES, '''        let projection = projection
            .iter()
            .map(|x| schema.index_of(x).unwrap())
            .collect();
        let (session_ctx, state, plan) =
            initial_plan(&self.db, TABLE_EVENTS.to_string(), projection)?;
        let _segment''', '''        let mut columns = Vec::with_capacity(projection.len());
        for name in &projection {
            columns.push(schema.index_of(name).unwrap());
        }
        let (session_ctx, state, plan) =
            initial_plan(&self.db, TABLE_EVENTS.to_string(), columns)?;
        let _segment''')
keep('q2', ES, '''                let typ = match metric_cols.contains(field.name()) {
                    true => ColumnType::Metric,
                    false => ColumnType::Dimension,
                };
''', '''                let typ = if metric_cols.contains(field.name()) {
                    ColumnType::Metric
                } else {
                    ColumnType::Dimension
                };
''')
keep('q3', ES, '''                Query::CountEvents => {}
                Query::CountUniqueGroups => {}
                Query::DailyActiveGroups => {}
                Query::WeeklyActiveGroups => {}
                Query::MonthlyActiveGroups => {}
                Query::CountPerGroup { .. } => {}
                Query::AggregatePropertyPerGroup { property, .. } => {
                    fields.push(col_name(ctx, property, md)?)
                }
                Query::AggregateProperty { property, .. } => {
                    fields.push(col_name(ctx, property, md)?)
                }
                Query::QueryFormula { .. } => {}
''', '''                Query::AggregatePropertyPerGroup { property, .. }
                | Query::AggregateProperty { property, .. } => {
                    fields.push(col_name(ctx, property, md)?)
                }
                _ => {}
''')
keep('q4', ES, '''    if let Some(filters) = &req.filters {
        for filter in filters {
            match filter {
                PropValueFilter::Property { property, .. } => {
                    fields.push(col_name(ctx, property, md)?)
                }
            }
        }
    }

    if let Some(breakdowns) = &req.breakdowns {
        for breakdown in breakdowns {
            match breakdown {
                Breakdown::Property(property) => fields.push(col_name(ctx, property, md)?),
            }
        }
    }

    let mut seen = HashSet::new();
    fields.retain(|field| seen.insert(field.clone()));

    Ok(fields)
''', '''    for breakdown in req.breakdowns.iter().flatten() {
        let Breakdown::Property(property) = breakdown;
        fields.push(col_name(ctx, property, md)?);
    }

    for filter in req.filters.iter().flatten() {
        let PropValueFilter::Property { property, .. } = filter;
        fields.push(col_name(ctx, property, md)?);
    }

    let mut unique: Vec<String> = Vec::new();
    for field in fields {
        if !unique.contains(&field) {
            unique.push(field);
        }
    }

    Ok(unique)
''')
keep('q5', ES, '''                        and = match and {
                            None => Some(expr),
                            Some(e) => Some(SegmentExpr::And(Box::new(e), Box::new(expr))),
                        };
''', '''                        and = Some(match and {
                            Some(e) => SegmentExpr::And(Box::new(e), Box::new(expr)),
                            None => expr,
                        });
''')
keep('q6', ES, '''                    or = match or {
                        None => Some(and.unwrap()),
                        Some(e) => Some(SegmentExpr::Or(Box::new(e), Box::new(and.unwrap()))),
                    };
''', '''                    let all = and.unwrap();
                    or = if let Some(e) = or {
                        Some(SegmentExpr::Or(Box::new(e), Box::new(all)))
                    } else {
                        Some(all)
                    };
''')
keep('q7', ES, '''        input = match events.len() {
            1 => {
                let input''', '''        input = match events.as_slice() {
            [_] => {
                let input''')
keep('q8', ES, '''                let mut inputs: Vec<LogicalPlan> = vec![];
                for idx in 0..events.len() {
                    let input = builder.build_event_logical_plan(
                        input.clone(),
                        idx,
                        es.group_id,
                        segment_inputs.clone(),
                    )?;

                    inputs.push(input);
                }
                let event_names = events
                    .iter()
                    .map(|event| event.event.name())
                    .collect::<Vec<_>>();
''', '''                let inputs = (0..events.len())
                    .map(|idx| {
                        builder.build_event_logical_plan(
                            input.clone(),
                            idx,
                            es.group_id,
                            segment_inputs.clone(),
                        )
                    })
                    .collect::<Result<Vec<LogicalPlan>>>()?;
                let mut event_names = vec![];
                for event in events.iter() {
                    event_names.push(event.event.name());
                }
''')
keep('q9', ES, '''        let mut group_cols = if ctx.format != Format::Compact {
            vec![COLUMN_EVENT.to_string(), COLUMN_SEGMENT.to_string()]
        } else {
            vec![COLUMN_SEGMENT.to_string()]
        };
''', '''        let mut group_cols = vec![];
        if ctx.format != Format::Compact {
            group_cols.push(COLUMN_EVENT.to_string());
        }
        group_cols.push(COLUMN_SEGMENT.to_string());
''')
keep('q10', ES, '''        if let Some(breakdowns) = &es.breakdowns {
            for breakdown in breakdowns.iter() {
                let prop = match breakdown {
                    Breakdown::Property(p) => match p {
                        PropertyRef::Group(p, group) => {
                            metadata.group_properties[*group].get_by_name(ctx.project_id, p)?
                        }
                        PropertyRef::Event(p) => {
                            metadata.event_properties.get_by_name(ctx.project_id, p)?
                        }
                        _ => {
                            return Err(QueryError::Unimplemented(
                                "invalid property type".to_string(),
                            ));
                        }
                    },
                };
                let cn = prop.column_name();
                if !group_cols.contains(&cn) {
                    group_cols.push(cn.clone());
                    let mut found = 0;
                    for v in display_group_cols.iter() {
                        if *v == prop.name() {
                            found += 1;
                        }
                    }
                    display_group_cols.push(prop.name());
                    if found == 0 {
                        rename_groups.push((cn, prop.name()));
                    } else {
                        rename_groups.push((cn, format!("{} {}", prop.name(), found + 1)));
                    }
                }
            }
        }
''', '''        for breakdown in es.breakdowns.iter().flatten() {
            let Breakdown::Property(p) = breakdown;
            let prop = match p {
                PropertyRef::Group(p, group) => {
                    metadata.group_properties[*group].get_by_name(ctx.project_id, p)?
                }
                PropertyRef::Event(p) => {
                    metadata.event_properties.get_by_name(ctx.project_id, p)?
                }
                _ => {
                    return Err(QueryError::Unimplemented(
                        "invalid property type".to_string(),
                    ));
                }
            };
            let cn = prop.column_name();
            if group_cols.contains(&cn) {
                continue;
            }
            group_cols.push(cn.clone());
            let found = display_group_cols
                .iter()
                .filter(|v| **v == prop.name())
                .count();
            display_group_cols.push(prop.name());
            let shown = match found {
                0 => prop.name(),
                n => format!("{} {}", prop.name(), n + 1),
            };
            rename_groups.push((cn, shown));
        }
''')
keep('q11', ES, '''                let mut event_expr = event_expression(&self.ctx, &self.metadata, event)?;
                // apply event filters
                if let Some(filters) = &filters {
                    event_expr = and(
                        event_expr.clone(),
                        event_filters_expression(&self.ctx, &self.metadata, filters)?,
                    )
                }
''', '''                let own = event_expression(&self.ctx, &self.metadata, event)?;
                // apply event filters
                let event_expr = match &filters {
                    Some(filters) => own.and(event_filters_expression(
                        &self.ctx,
                        &self.metadata,
                        filters,
                    )?),
                    None => own,
                };
''')
keep('q12', ES, '''        for event in &self.es.events {
            if let Some(filters) = &event.filters {
                for filter in filters {
                    decode_filter_single_dictionary(
                        &self.ctx,
                        &self.metadata,
                        cols_hash,
                        &mut decode_cols,
                        filter,
                    )?;
                }
            }
        }

        if let Some(filters) = &self.es.filters {
            for filter in filters {
                decode_filter_single_dictionary(
                    &self.ctx,
                    &self.metadata,
                    cols_hash,
                    &mut decode_cols,
                    filter,
                )?;
            }
        }
''', '''        let of_events = self
            .es
            .events
            .iter()
            .filter_map(|event| event.filters.as_ref())
            .flatten();
        let of_all = self.es.filters.iter().flatten();
        for filter in of_events.chain(of_all) {
            decode_filter_single_dictionary(
                &self.ctx,
                &self.metadata,
                cols_hash,
                &mut decode_cols,
                filter,
            )?;
        }
''')
keep('q13', ES, '''        if self.ctx.format != Format::Compact {
            input = {
                let agg_cols = self.es.events[event_id]
                    .queries
                    .iter()
                    .enumerate()
                    .map(|(idx, q)| match q.agg {
                        Query::CountEvents => format!("{event_id}_{idx}_count"),
                        Query::CountUniqueGroups => format!("{event_id}_{idx}_partitioned_count"),
                        Query::DailyActiveGroups => format!("{event_id}_{idx}_partitioned_count"),
                        Query::WeeklyActiveGroups => unimplemented!(),
                        Query::MonthlyActiveGroups => unimplemented!(),
                        Query::CountPerGroup { .. } => {
                            format!("{event_id}_{idx}_partitioned_count")
                        }
                        Query::AggregatePropertyPerGroup { .. } => {
                            format!("{event_id}_{idx}_partitioned_agg")
                        }
                        Query::AggregateProperty { .. } => format!("{event_id}_{idx}_agg"),
                        Query::QueryFormula { .. } => unimplemented!(),
                    })
                    .collect();
''', '''        if self.ctx.format != Format::Compact {
            input = {
                let mut agg_cols = vec![];
                for (idx, q) in self.es.events[event_id].queries.iter().enumerate() {
                    let suffix = match q.agg {
                        Query::CountEvents => "count",
                        Query::CountUniqueGroups
                        | Query::DailyActiveGroups
                        | Query::CountPerGroup { .. } => "partitioned_count",
                        Query::AggregatePropertyPerGroup { .. } => "partitioned_agg",
                        Query::AggregateProperty { .. } => "agg",
                        Query::WeeklyActiveGroups
                        | Query::MonthlyActiveGroups
                        | Query::QueryFormula { .. } => unimplemented!(),
                    };
                    agg_cols.push(format!("{}_{}_{}", event_id, idx, suffix));
                }
''')
keep('q14', ES, '''        let cur_time = self.ctx.cur_time;
        // todo add project_id filtering
        let mut expr = binary_expr(
            col(COLUMN_PROJECT_ID),
            Operator::Eq,
            lit(ScalarValue::from(self.ctx.project_id as i64)),
        );
        expr = and(
            expr,
            time_expression(COLUMN_CREATED_AT, input.schema(), &self.es.time, cur_time)?,
        );

        // event expression
        expr = and(
            expr,
            event_expression(&self.ctx, &self.metadata, &event.event)?,
        );
''', '''        let time = time_expression(
            COLUMN_CREATED_AT,
            input.schema(),
            &self.es.time,
            self.ctx.cur_time,
        )?;
        let own = event_expression(&self.ctx, &self.metadata, &event.event)?;
        let project = col(COLUMN_PROJECT_ID).eq(lit(self.ctx.project_id as i64));
        let mut expr = project.and(time).and(own);
''')
keep('q15', ES, '''        // event groups
        if let Some(breakdowns) = &event.breakdowns {
            for breakdown in breakdowns.iter() {
                let prop = match breakdown {
                    Breakdown::Property(p) => match p {
                        PropertyRef::Group(p, group) => self.metadata.group_properties[*group]
                            .get_by_name(self.ctx.project_id, p)?,
                        PropertyRef::Event(p) => self
                            .metadata
                            .event_properties
                            .get_by_name(self.ctx.project_id, p)?,
                        _ => {
                            return Err(QueryError::Unimplemented(
                                "invalid property type".to_string(),
                            ));
                        }
                    },
                };
                group_expr.push((
                    breakdown_expr(&self.ctx, &self.metadata, breakdown)?,
                    prop.column_name(),
                ));
            }
        }

        // common groups
        if let Some(breakdowns) = &self.es.breakdowns {
            for breakdown in breakdowns.iter() {
                let prop = match breakdown {
                    Breakdown::Property(p) => match p {
                        PropertyRef::Group(p, group) => self.metadata.group_properties[*group]
                            .get_by_name(self.ctx.project_id, p)?,
                        PropertyRef::Event(p) => self
                            .metadata
                            .event_properties
                            .get_by_name(self.ctx.project_id, p)?,
                        _ => {
                            return Err(QueryError::Unimplemented(
                                "invalid property type".to_string(),
                            ));
                        }
                    },
                };
                group_expr.push((
                    breakdown_expr(&self.ctx, &self.metadata, breakdown)?,
                    prop.column_name(),
                ));
            }
        }
''', '''        // event groups, then common ones
        for breakdowns in [&event.breakdowns, &self.es.breakdowns]
            .into_iter()
            .flatten()
        {
            for breakdown in breakdowns {
                let prop = match breakdown {
                    Breakdown::Property(PropertyRef::Group(p, group)) => {
                        self.metadata.group_properties[*group].get_by_name(self.ctx.project_id, p)?
                    }
                    Breakdown::Property(PropertyRef::Event(p)) => self
                        .metadata
                        .event_properties
                        .get_by_name(self.ctx.project_id, p)?,
                    Breakdown::Property(PropertyRef::Custom(_)) => {
                        return Err(QueryError::Unimplemented(
                            "invalid property type".to_string(),
                        ));
                    }
                };
                let expr = breakdown_expr(&self.ctx, &self.metadata, breakdown)?;
                group_expr.push((expr, prop.column_name()));
            }
        }
''')
keep('q16', ES, '''            for (event_id, event) in self.es.events.iter().enumerate() {
                for (query_id, query) in event.queries.iter().enumerate() {
                    let from = format!("{event_id}_{query_id}_{}", query.agg.initial_name());
                    let to = query.agg.name();
                    rename_rows.push((from, to));
                }
            }
''', '''            for event_id in 0..self.es.events.len() {
                let queries = &self.es.events[event_id].queries;
                for query_id in 0..queries.len() {
                    let agg = &queries[query_id].agg;
                    rename_rows.push((
                        format!("{}_{}_{}", event_id, query_id, agg.initial_name()),
                        agg.name(),
                    ));
                }
            }
''')
# event search
keep('q20', ER, '''        proj.sort();
        proj.dedup();
''', '''        let proj = {
            proj.sort_unstable();
            proj.dedup();
            proj
        };
''')
keep('q21', ER, '''            for p in self.metadata.event_properties.list(ctx.project_id)?.data {
                if p.column_name() == *field.name() {
                    property = Some(p);
                    break;
                }
            }

            if property.is_none() {''', '''            for p in self.metadata.event_properties.list(ctx.project_id)?.data {
                if field.name() == &p.column_name() {
                    property.replace(p);
                    break;
                }
            }

            if !property.is_some() {''')
keep('q22', ER, '''            let p = projection(&ctx, &req, &self.metadata)?;
            p.iter().map(|x| schema.index_of(x).unwrap()).collect()
        } else {
            (0..schema.fields.len()).collect::<Vec<_>>()
        };
''', '''            let mut out = vec![];
            for x in projection(&ctx, &req, &self.metadata)? {
                out.push(schema.index_of(&x).unwrap());
            }
            out
        } else {
            (0..schema.fields.len()).collect::<Vec<_>>()
        };
''')
keep('q23', ER, '''            if prop_names.contains(&p.column_name()) {
                continue;
            }
            prop_names.push(p.column_name());
            properties.push(p.clone());
            exprs.push(col(Column {
                relation: None,
                name: p.column_name(),
            }));
''', '''            let name = p.column_name();
            if !prop_names.contains(&name) {
                exprs.push(col(Column::new_unqualified(name.clone())));
                prop_names.push(name);
                properties.push(p);
            }
''')
keep('q24', ER, '''    if let Some(events) = &req.events
        && !events.is_empty()
    {
        let mut exprs = vec![];
        for event in events {
            // event expression
            let mut expr = event_expression(&ctx, &metadata, &event.event)?;
            // apply event filters
            if let Some(filters) = &event.filters
                && !filters.is_empty()
            {
                expr = and(
                    expr.clone(),
                    event_filters_expression(&ctx, &metadata, filters)?,
                )
            }

            exprs.push(expr);
        }
        filter_exprs.push(multi_or(exprs))
    }
''', '''    let any_event = match &req.events {
        Some(events) if !events.is_empty() => {
            let exprs = events
                .iter()
                .map(|event| {
                    let expr = event_expression(&ctx, &metadata, &event.event)?;
                    match &event.filters {
                        Some(filters) if !filters.is_empty() => Ok(and(
                            expr,
                            event_filters_expression(&ctx, &metadata, filters)?,
                        )),
                        _ => Ok(expr),
                    }
                })
                .collect::<Result<Vec<Expr>>>()?;
            Some(multi_or(exprs))
        }
        _ => None,
    };
    filter_exprs.extend(any_event);
''')
keep('q25', ER, '''        if !exprs.iter().any(|v| match v {
            Expr::Column(c) => c.name == *COLUMN_EVENT_ID,
            _ => unreachable!(),
        }) {
            exprs = [
                vec![col(Column {
                    relation: None,
                    name: COLUMN_EVENT_ID.to_string(),
                })],
                exprs.to_vec(),
            ]
            .concat();
        }
''', '''        let has_id = exprs
            .iter()
            .any(|v| matches!(v, Expr::Column(c) if c.name == COLUMN_EVENT_ID));
        if !has_id {
            exprs.insert(
                0,
                col(Column {
                    relation: None,
                    name: COLUMN_EVENT_ID.to_string(),
                }),
            );
        }
''')
keep('q26', ER, '''    let dict_props = properties
        .iter()
        .filter(|prop| prop.is_dictionary && !cols_hash.contains_key(&prop.column_name()))
        .collect::<Vec<_>>();
    let decode_cols = dict_props
        .iter()
        .map(|prop| {
            let col_name = prop.column_name();
            let dict = match prop.typ {
                Type::Event => SingleDictionaryProvider::new(
                    ctx.project_id,
                    TABLE_EVENTS.to_string(),
                    col_name.clone(),
                    metadata.dictionaries.clone(),
                ),
                Type::Group(g) => SingleDictionaryProvider::new(
                    ctx.project_id,
                    group_col(g),
                    col_name.clone(),
                    metadata.dictionaries.clone(),
                ),
            };
            let col = Column::from_name(col_name);
            cols_hash.insert(prop.column_name(), ());

            (col, Arc::new(dict))
        })
        .collect::<Vec<_>>();
    let input = if !decode_cols.is_empty() {
        LogicalPlan::Extension(Extension {
            node: Arc::new(DictionaryDecodeNode::try_new(input, decode_cols.clone())?),
        })
    } else {
        input
    };

    let mut rename = vec![];
''', '''    let mut decode_cols = vec![];
    for prop in &properties {
        if !prop.is_dictionary || cols_hash.contains_key(&prop.column_name()) {
            continue;
        }
        let col_name = prop.column_name();
        let tbl = match prop.typ {
            Type::Event => TABLE_EVENTS.to_string(),
            Type::Group(g) => group_col(g),
        };
        let dict = SingleDictionaryProvider::new(
            ctx.project_id,
            tbl,
            col_name.clone(),
            metadata.dictionaries.clone(),
        );
        decode_cols.push((Column::from_name(col_name), Arc::new(dict)));
    }
    for (col, _) in &decode_cols {
        cols_hash.insert(col.name.clone(), ());
    }
    let input = if decode_cols.is_empty() {
        input
    } else {
        let node = DictionaryDecodeNode::try_new(input, decode_cols)?;
        LogicalPlan::Extension(Extension {
            node: Arc::new(node),
        })
    };

    let mut rename = vec![];
''')
keep('q27', ER, '''        let mut found = 0;
        for f in rename_found.iter() {
            if f == &prop.name() {
                found += 1;
            }
        }
        let col_name = prop.column_name();

        let new_name = if found == 0 {
            prop.name()
        } else {
            format!("{} {}", prop.name(), found + 1)
        };
        rename.push((col_name, new_name));
        rename_found.push(prop.name());
''', '''        let name = prop.name();
        let found = rename_found.iter().filter(|f| **f == name).count();
        let mut new_name = name.clone();
        if found > 0 {
            new_name = format!("{} {}", name, found + 1);
        }
        rename.push((prop.column_name(), new_name));
        rename_found.push(name);
''')
# property values
keep('q30', PV, '''        let mut expr = binary_expr(
            col(COLUMN_PROJECT_ID),
            Operator::Eq,
            lit(ScalarValue::from(ctx.project_id as i64)),
        );

        if let Some(event) = &req.event {
            expr = and(expr, event_expression(&ctx, &metadata, event)?);
        }
''', '''        let own = binary_expr(
            col(COLUMN_PROJECT_ID),
            Operator::Eq,
            lit(ScalarValue::from(ctx.project_id as i64)),
        );

        let expr = match &req.event {
            None => own,
            Some(event) => and(own, event_expression(&ctx, &metadata, event)?),
        };
''')
keep('q31', PV, '''        let input = match &req.filter {
            Some(filter) => LogicalPlan::Filter(PlanFilter::try_new(
                named_property_expression(
                    col(col_name.as_str()),
                    &filter.operation,
                    filter.value.clone(),
                )?,
                Arc::new(input),
            )?),
            None => input,
        };
''', '''        let input = if let Some(Filter { operation, value }) = req.filter {
            let cond = named_property_expression(col(col_name.as_str()), &operation, value)?;
            LogicalPlan::Filter(PlanFilter::try_new(cond, Arc::new(input))?)
        } else {
            input
        };
''')
keep('q32', PV, '''            expr: vec![Expr::Sort(expr::Sort {
                expr: Box::new(col(col_name.as_str())),
                asc: true,
                nulls_first: false,
            })],
''', '''            expr: vec![col(col_name.as_str()).sort(true, false)],
''')
keep('q33', PV, '''    let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
    fields.push(col_name(ctx, &req.property, md)?);
    let mut seen = HashSet::new();
    fields.retain(|field| seen.insert(field.clone()));
    Ok(fields)
''', '''    let name = col_name(ctx, &req.property, md)?;
    let mut fields = vec![COLUMN_PROJECT_ID.to_string(), COLUMN_EVENT.to_string()];
    if !fields.contains(&name) {
        fields.push(name);
    }
    Ok(fields)
''')
# conditions
keep('q40', QX, '''    let (from, to) = time.range(cur_time);
    let from_expr = binary_expr(
        ts_col.clone(),
        Operator::GtEq,
        lit_timestamp(ts_type.clone(), &from)?,
    );

    let to_expr = binary_expr(ts_col, Operator::LtEq, lit_timestamp(ts_type, &to)?);

    Ok(and(from_expr, to_expr))
''', '''    let (from, to) = time.range(cur_time);
    let from = lit_timestamp(ts_type.clone(), &from)?;
    let to = lit_timestamp(ts_type, &to)?;

    Ok(ts_col.clone().gt_eq(from).and(ts_col.lt_eq(to)))
''')
keep('q41', QX, '''            let mut final_expr = exprs[0].clone();
            for expr in exprs.iter().skip(1) {
                final_expr = or(final_expr.clone(), expr.to_owned())
            }

            final_expr
''', '''            let mut rest = exprs.into_iter();
            let first = rest.next().unwrap();
            rest.fold(first, or)
''')
keep('q42', QX, '''                let mut expr = match &event.event {
                    EventRef::RegularName(name) => {
                        event_expression(ctx, metadata, &EventRef::RegularName(name.to_owned()))?
                    }
                    EventRef::Regular(id) => {
                        event_expression(ctx, metadata, &EventRef::Regular(*id))?
                    }
                    EventRef::Custom(id) => {
                        event_expression(ctx, metadata, &EventRef::Custom(*id))?
                    }
                };
''', '''                let mut expr = event_expression(ctx, metadata, &event.event)?;
''')
keep('q43', QX, '''    if filters_exprs.len() == 1 {
        return Ok(filters_exprs[0].clone());
    }

    Ok(multi_and(filters_exprs))
''', '''    Ok(match filters_exprs.as_slice() {
        [one] => one.clone(),
        _ => multi_and(filters_exprs),
    })
''')
keep('q44', QX, '''        if let ScalarValue::Utf8(inner) = value {
            if let Some(str_value) = inner {
                let key =
                    dictionaries.get_key(ctx.project_id, tbl, col_name, str_value.as_str())?;

                let scalar_value = match dict_type {
                    DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
                    DictionaryType::Int16 => ScalarValue::Int16(Some(key as i16)),
                    DictionaryType::Int32 => ScalarValue::Int32(Some(key as i32)),
                    DictionaryType::Int64 => ScalarValue::Int64(Some(key as i64)),
                };

                ret.push(scalar_value);
            } else {
                ret.push(ScalarValue::try_from(DataType::from(dict_type.to_owned()))?);
            }
        } else {
            #[allow(deprecated)]
            return Err(QueryError::Plan(format!(
                "value type should be Utf8, but \\"{:?}\\" was given",
                value.get_datatype()
            )));
        }
''', '''        let encoded = match value {
            ScalarValue::Utf8(Some(text)) => {
                let key = dictionaries.get_key(ctx.project_id, tbl, col_name, text)?;
                match dict_type {
                    DictionaryType::Int8 => ScalarValue::Int8(Some(key as i8)),
                    DictionaryType::Int16 => ScalarValue::Int16(Some(key as i16)),
                    DictionaryType::Int32 => ScalarValue::Int32(Some(key as i32)),
                    DictionaryType::Int64 => ScalarValue::Int64(Some(key as i64)),
                }
            }
            ScalarValue::Utf8(None) => ScalarValue::try_from(DataType::from(dict_type.clone()))?,
            other => {
                return Err(QueryError::Plan(format!(
                    "value type should be Utf8, but \\"{:?}\\" was given",
                    other.data_type()
                )));
            }
        };
        ret.push(encoded);
''')
keep('q45', QX, '''    if values.is_none() {
        return named_property_expression(col, operation, None);
    }

    match operation {
        PropValueOperation::Like
        | PropValueOperation::NotLike
        | PropValueOperation::Regex
        | PropValueOperation::NotRegex => {
            return named_property_expression(col, operation, values);
        }
        _ => {}
    }

    if let Some(dict_type) = prop.dictionary_type {
        let dict_values = encode_property_dict_values(
            ctx,
            tbl,
            dicts,
            &dict_type,
            col_name.as_str(),
            &values.unwrap(),
        )?;
        named_property_expression(col, operation, Some(dict_values))
    } else {
        named_property_expression(col, operation, values)
    }
''', '''    let on_text = matches!(
        operation,
        PropValueOperation::Like
            | PropValueOperation::NotLike
            | PropValueOperation::Regex
            | PropValueOperation::NotRegex
    );
    let values = match (values, prop.dictionary_type) {
        (Some(values), Some(dict_type)) if !on_text => Some(encode_property_dict_values(
            ctx,
            tbl,
            dicts,
            &dict_type,
            col_name.as_str(),
            &values,
        )?),
        (values, _) => values,
    };
    named_property_expression(col, operation, values)
''')
keep('q46', QX, '''            Ok(match values_vec.len() {
                1 => prop_col.like(lit(values_vec[0].to_owned())),
                _ => {
                    // iterate over all possible values
                    let exprs = values_vec
                        .iter()
                        .map(|v| prop_col.to_owned().like(lit(v.to_owned())))
                        .collect();

                    multi_or(exprs)
                }
            })
''', '''            let mut exprs = vec![];
            for v in values_vec {
                exprs.push(prop_col.clone().like(lit(v)));
            }
            if exprs.len() == 1 {
                return Ok(exprs.remove(0));
            }
            Ok(multi_or(exprs))
''')
keep('q47', QX, '''                    let exprs = values_vec
                        .iter()
                        .map(|v| {
                            binary_expr(
                                prop_col.clone(),
                                operation.clone().try_into().unwrap(),
                                lit(v.to_owned()),
                            )
                        })
                        .collect();

                    match operation {
                        PropValueOperation::Neq | PropValueOperation::NotRegex => multi_and(exprs),
                        _ => multi_or(exprs),
                    }
''', '''                    let op: Operator = operation.to_owned().try_into()?;
                    let mut exprs = Vec::with_capacity(values_vec.len());
                    for v in values_vec.into_iter() {
                        exprs.push(binary_expr(prop_col.clone(), op, lit(v)));
                    }
                    if matches!(
                        operation,
                        PropValueOperation::Neq | PropValueOperation::NotRegex
                    ) {
                        multi_and(exprs)
                    } else {
                        multi_or(exprs)
                    }
''')
# funnel
keep('q50', QF, '''                let col = match result.column(idx + 1).data_type() {
                    DataType::Decimal128(_, _) => {
                        let arr = result
                            .column(idx + 1)
                            .as_any()''', '''                let shown = result.column(idx + 1);
                let col = match shown.data_type() {
                    DataType::Decimal128(_, _) => {
                        let arr = shown
                            .as_any()''')
keep('q51', QF, '''        let mut int_val_cols = vec![];
        let mut dec_val_cols = vec![];

        for idx in 0..(result.schema().fields().len() - group_cols.len() - 1) {
            let arr = result.column(group_cols.len() + 1 + idx).to_owned();
''', '''        let mut int_val_cols = vec![];
        let mut dec_val_cols = vec![];

        let first = group_cols.len() + 1;
        for idx in first..result.schema().fields().len() {
            let arr = result.column(idx).to_owned();
''')
keep('q52', QF, '''                let mut expr = event_expression(&ctx, &metadata, &event.event)?;
                if let Some(filters) = &event.filters {
                    expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
                }
                exprs.push(expr)
            }

            let order = match &step.order {
                StepOrder::Exact => logical_plan::funnel::StepOrder::Exact,
                StepOrder::Any(order) => logical_plan::funnel::StepOrder::Any(order.to_vec()),
            };
            steps.push((multi_or(exprs), order))
        }

        steps
    };
''', '''                exprs.push(filtered(&ctx, &metadata, &event.event, &event.filters)?);
            }

            let order = match step.order.clone() {
                StepOrder::Any(order) => logical_plan::funnel::StepOrder::Any(order),
                StepOrder::Exact => logical_plan::funnel::StepOrder::Exact,
            };
            steps.push((multi_or(exprs), order))
        }

        steps
    };
''', QF, '''            let mut expr = event_expression(&ctx, &metadata, &exclude.event)?;
            if let Some(filters) = &exclude.filters {
                expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?);
            }
            let steps''', '''            let expr = filtered(&ctx, &metadata, &exclude.event, &exclude.filters)?;
            let steps''', QF, '''pub fn build(
    ctx: Context,
''', '''fn filtered(
    ctx: &Context,
    metadata: &Arc<MetadataProvider>,
    event: &EventRef,
    filters: &Option<Vec<PropValueFilter>>,
) -> Result<Expr> {
    let expr = event_expression(ctx, metadata, event)?;
    match filters {
        Some(filters) => Ok(and(
            expr,
            event_filters_expression(ctx, metadata, filters)?,
        )),
        None => Ok(expr),
    }
}

pub fn build(
    ctx: Context,
''')
keep('q53', QF, '''            let steps = if let Some(steps) = &exclude.steps {
                let steps = match steps {
                    ExcludeSteps::All => logical_plan::funnel::ExcludeSteps {
                        from: 0,
                        to: req.steps.len() - 1,
                    },
                    ExcludeSteps::Between(from, to) => logical_plan::funnel::ExcludeSteps {
                        from: *from,
                        to: *to,
                    },
                };
                Some(steps)
            } else {
                None
            };
''', '''            let steps = exclude.steps.as_ref().map(|steps| {
                let (from, to) = match steps {
                    ExcludeSteps::All => (0, req.steps.len() - 1),
                    ExcludeSteps::Between(from, to) => (*from, *to),
                };
                logical_plan::funnel::ExcludeSteps { from, to }
            });
''')
keep('q54', QF, '''    let mut expr = and(
        binary_expr(
            col(COLUMN_PROJECT_ID),
            Operator::Eq,
            lit(ScalarValue::from(ctx.project_id as i64)),
        ),
        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
    );
    if let Some(filters) = &req.filters {
        expr = and(expr, event_filters_expression(&ctx, &metadata, filters)?)
    }
    let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
''', '''    let mut conds = vec![
        binary_expr(
            col(COLUMN_PROJECT_ID),
            Operator::Eq,
            lit(ScalarValue::from(ctx.project_id as i64)),
        ),
        time_expression(COLUMN_CREATED_AT, input.schema(), &req.time, ctx.cur_time)?,
    ];
    if let Some(filters) = &req.filters {
        conds.push(event_filters_expression(&ctx, &metadata, filters)?);
    }
    let expr = conds.into_iter().reduce(and).unwrap();
    let input = LogicalPlan::Filter(PlanFilter::try_new(expr, Arc::new(input))?);
''')
keep('q55', QF, '''            let name = match &step.events[0].event {
                EventRef::RegularName(n) => n.clone(),
                EventRef::Regular(id) => self.metadata.events.get_by_id(ctx.project_id, *id)?.name,
                EventRef::Custom(_) => unimplemented!(),
            };
            let mut step = Step {
                step: name.clone(),
                data: vec![],
            };
''', '''            let first = &step.events[0];
            let step = match &first.event {
                EventRef::RegularName(n) => n.to_string(),
                EventRef::Regular(id) => {
                    let event = self.metadata.events.get_by_id(ctx.project_id, *id)?;
                    event.name
                }
                EventRef::Custom(_) => unimplemented!(),
            };
            let mut step = Step { step, data: vec![] };
''')
