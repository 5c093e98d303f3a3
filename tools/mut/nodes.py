L0 = 'src/query/src/logical_plan/'
P0 = 'src/query/src/physical_plan/'
X0 = P0 + 'expressions/'
keep('n1', L0 + 'merge.rs', '''        schema = if let Some((col_name, _)) = names.clone() {
            let fields = [
                vec![Arc::new(Field::new(col_name, DataType::Utf8, false))],
                schema.fields().to_vec(),
            ]
            .concat();

            DFSchema::from_unqualifed_fields(fields.into(), HashMap::default())?
        } else {
            schema
        };
''', '''        if let Some((col_name, _)) = &names {
            let mut fields = vec![Arc::new(Field::new(col_name.clone(), DataType::Utf8, false))];
            fields.extend(schema.fields().to_vec());
            schema = DFSchema::from_unqualifed_fields(fields.into(), HashMap::default())?;
        }
''')
keep('n2', L0 + 'merge.rs', '''        self.inputs.iter().collect()
''', '''        let mut out = Vec::with_capacity(self.inputs.len());
        for input in &self.inputs {
            out.push(input);
        }
        out
''')
keep('n3', L0 + 'merge.rs', '''        Ok(Arc::new(
            Self::try_new(inputs, self.names.clone())
                .map_err(QueryError::into_datafusion_plan_error)?,
        ))
''', '''        let node = MergeNode::try_new(inputs, self.names.clone());
        match node {
            Ok(node) => Ok(Arc::new(node)),
            Err(err) => Err(err.into_datafusion_plan_error()),
        }
''')
keep('n4', L0 + 'limit_groups.rs', '''        Ok(Arc::new(
            LimitGroupsNode::try_new(inputs[0].clone(), self.skip, self.groups, self.limit)
                .map_err(QueryError::into_datafusion_plan_error)?,
        ))
''', '''        let Self { skip, groups, limit, .. } = self;
        let input = inputs.into_iter().next().unwrap();
        LimitGroupsNode::try_new(input, *skip, *groups, *limit)
            .map(|node| Arc::new(node) as Arc<dyn UserDefinedLogicalNode>)
            .map_err(QueryError::into_datafusion_plan_error)
''')
keep('n5', L0 + 'limit_groups.rs', '''        let schema = input.schema().to_owned();

        Ok(Self {
            input,
            skip,
            groups,
            limit,
            schema,
        })
''', '''        Ok(Self {
            schema: input.schema().clone(),
            input,
            skip,
            groups,
            limit,
        })
''')
keep('n6', L0 + 'segment.rs', '''        let field = input.schema().field_from_column(&partition_col)?.to_owned();
        let schema = DFSchema::from_unqualifed_fields(vec![field].into(), Default::default())?;
        Ok(Self {
            input,
            expr,
            partition_col,
            schema: Arc::new(schema),
        })
''', '''        let fields = vec![input.schema().field_from_column(&partition_col)?.clone()];
        let schema = Arc::new(DFSchema::from_unqualifed_fields(
            fields.into(),
            Default::default(),
        )?);
        let node = SegmentNode {
            input,
            expr,
            partition_col,
            schema,
        };
        Ok(node)
''')
keep('n7', L0 + 'segment.rs', '''        let node = SegmentNode::try_new(
            inputs[0].clone(),
            self.expr.clone(),
            self.partition_col.clone(),
        )
        .map_err(QueryError::into_datafusion_plan_error)?;
        Ok(Arc::new(node))
''', '''        let node = Self::try_new(
            inputs[0].to_owned(),
            self.expr.to_owned(),
            self.partition_col.to_owned(),
        );
        Ok(Arc::new(
            node.map_err(|err| err.into_datafusion_plan_error())?,
        ))
''')
keep('n8', P0 + 'planner/mod.rs', '''    let ret = filter
        .map(|e| create_physical_expr(&e, dfschema, execution_props))
        .transpose()?;

    Ok(ret)
''', '''    match filter {
        None => Ok(None),
        Some(e) => Ok(Some(create_physical_expr(&e, dfschema, execution_props)?)),
    }
''')
keep('n9', P0 + 'planner/mod.rs', '''            let decode_cols = node
                .decode_cols
                .iter()
                .map(|(col, dict)| {
                    (
                        expressions::Column::new(
                            col.name.as_str(),
                            schema.index_of_column(col).unwrap(),
                        ),
                        dict.to_owned(),
                    )
                })
                .collect();
''', '''            let mut decode_cols = Vec::with_capacity(node.decode_cols.len());
            for (col, dict) in &node.decode_cols {
                let idx = schema.index_of_column(col)?;
                decode_cols.push((Column::new(&col.name, idx), dict.clone()));
            }
''')
keep('n10', P0 + 'planner/mod.rs', '''            let partition_inputs = node
                .partition_inputs
                .clone()
                .map(|c| physical_inputs[1..=c.len()].to_vec());
''', '''            let partition_inputs = match &node.partition_inputs {
                None => None,
                Some(c) => Some(physical_inputs[1..c.len() + 1].to_vec()),
            };
''')
keep('n11', P0 + 'planner/mod.rs', '''            let agg_expr = node
                .agg_expr
                .clone()
                .into_iter()
                .map(|(expr, name)| {
                    build_partitioned_aggregate_final_expr(expr, &physical_inputs[0].schema())
                        .map(|expr| (Arc::new(Mutex::new(expr)), name))
                })
                .collect::<Result<Vec<_>>>()
                .map_err(|err| DataFusionError::Plan(err.to_string()))?;
''', '''            let schema = physical_inputs[0].schema();
            let mut agg_expr = vec![];
            for (expr, name) in node.agg_expr.iter() {
                let expr = build_partitioned_aggregate_final_expr(expr.clone(), &schema)
                    .map_err(|err| DataFusionError::Plan(err.to_string()))?;
                agg_expr.push((Arc::new(Mutex::new(expr)), name.clone()));
            }
''')
keep('n12', P0 + 'planner/mod.rs', '''        let any = node.as_any();
        let plan = if let Some(node) = any.downcast_ref::<MergeNode>() {
''', '''        fn plan_err<E: std::fmt::Display>(err: E) -> DataFusionError {
            DataFusionError::Plan(err.to_string())
        }
        let any = node.as_any();
        if let Some(node) = any.downcast_ref::<MergeNode>() {
            let exec = MergeExec::try_new(physical_inputs.to_vec(), node.names.clone())
                .map_err(plan_err)?;
            return Ok(Some(Arc::new(exec)));
        }
        if let Some(node) = any.downcast_ref::<UnpivotNode>() {
            let input = physical_inputs[0].clone();
            let (name_col, value_col) = (node.name_col.clone(), node.value_col.clone());
            let exec = UnpivotExec::try_new(input, node.cols.clone(), name_col, value_col)
                .map_err(plan_err)?;
            return Ok(Some(Arc::new(exec)));
        }
        let plan = if let Some(node) = any.downcast_ref::<MergeNode>() {
''')
keep('n13', P0 + 'planner/mod.rs', '''            let exec =
                SegmentExec::try_new(physical_inputs[0].clone(), segment_expr, partition_col)
                    .map_err(|err| DataFusionError::Plan(err.to_string()))
                    .map_err(|err| DataFusionError::Plan(err.to_string()))?;
            Some(Arc::new(exec) as Arc<dyn ExecutionPlan>)
''', '''            match SegmentExec::try_new(physical_inputs[0].clone(), segment_expr, partition_col) {
                Ok(exec) => Some(Arc::new(exec) as Arc<dyn ExecutionPlan>),
                Err(err) => return Err(DataFusionError::Plan(err.to_string())),
            }
''')
keep('n14', P0 + 'planner/mod.rs', '''            let schema = node.input.schema();
            let exec = PivotExec::try_new(
                physical_inputs[0].clone(),
                expressions::Column::new(
                    node.name_col.name.as_str(),
                    schema.index_of_column(&node.name_col)?,
                ),
                expressions::Column::new(
                    node.value_col.name.as_str(),
                    schema.index_of_column(&node.value_col)?,
                ),
                node.result_cols.clone(),
            )
            .map_err(|err| DataFusionError::Plan(err.to_string()))?;
''', '''            let schema = node.input.schema();
            let column = |c: &datafusion_common::Column| -> DFResult<Column> {
                Ok(Column::new(c.name.as_str(), schema.index_of_column(c)?))
            };
            let name_col = column(&node.name_col)?;
            let value_col = column(&node.value_col)?;
            let exec = PivotExec::try_new(
                physical_inputs[0].clone(),
                name_col,
                value_col,
                node.result_cols.clone(),
            )
            .map_err(|err| DataFusionError::Plan(err.to_string()))?;
''')
keep('n15', P0 + 'planner/segment.rs', '''    match time_range {
        logical_plan::segment::TimeRange::Between(a, b) => TimeRange::Between(a, b),
        logical_plan::segment::TimeRange::From(f) => TimeRange::From(f),
        logical_plan::segment::TimeRange::Last(x, y) => TimeRange::Last(x, y),
        logical_plan::segment::TimeRange::None => TimeRange::None,
    }
''', '''    use logical_plan::segment::TimeRange as Logical;
    match time_range {
        Logical::None => TimeRange::None,
        Logical::From(from) => TimeRange::new_from_milli(from),
        Logical::Last(since, ts) => TimeRange::new_last_milli(since, ts),
        Logical::Between(from, to) => TimeRange::new_between_milli(from, to),
    }
''')
keep('n16', P0 + 'planner/segment.rs', '''            let expr = And::new(
                build_segment_expr(*l, schema)?,
                build_segment_expr(*r, schema)?,
            );
            Ok(Arc::new(expr) as Arc<dyn SegmentExpr>)
''', '''            let left = build_segment_expr(*l, schema)?;
            let right = build_segment_expr(*r, schema)?;
            Ok(Arc::new(And::new(left, right)))
''')
keep('n17', P0 + 'planner/segment.rs', '''                logical_plan::segment::Operator::Eq => {
                    count!(Eq, filter, ts_col, partition_col, right, time_range)
                }
                logical_plan::segment::Operator::NotEq => {
                    count!(NotEq, filter, ts_col, partition_col, right, time_range)
                }
''', '''                logical_plan::segment::Operator::NotEq => {
                    let expr =
                        Count::<NotEq>::new(filter, ts_col, partition_col, right, time_range);
                    Arc::new(expr) as Arc<dyn SegmentExpr>
                }
                logical_plan::segment::Operator::Eq => {
                    count!(Eq, filter, ts_col, partition_col, right, time_range)
                }
''')
keep('n18', P0 + 'planner/funnel.rs', '''    let partition_inputs = node
        .partition_inputs
        .clone()
        .map(|c| physical_inputs[1..=c.len()].to_vec());
''', '''    let partition_inputs = if let Some(inputs) = &node.partition_inputs {
        let count = inputs.len();
        Some(physical_inputs[1..=count].to_vec())
    } else {
        None
    };
''')
keep('n19', P0 + 'planner/funnel.rs', '''    let steps = f
        .steps
        .iter()
        .map(|(expr, order)| {
            let expr = create_physical_expr(expr, &dfschema, &execution_props).unwrap();
            let order = match order {
                logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
                logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.to_vec()),
            };
            (expr, order)
        })
        .collect::<Vec<_>>();
''', '''    let mut steps = Vec::with_capacity(f.steps.len());
    for (expr, order) in &f.steps {
        let order = match order {
            logical_plan::funnel::StepOrder::Any(v) => StepOrder::Any(v.clone()),
            logical_plan::funnel::StepOrder::Exact => StepOrder::Exact,
        };
        steps.push((create_physical_expr(expr, &dfschema, &execution_props)?, order));
    }
''')
keep('n20', P0 + 'planner/funnel.rs', '''    let exclude = if let Some(exclude) = f.exclude {
        let mut out = vec![];
        for exclude in exclude {
            let expr = create_physical_expr(&exclude.expr, &dfschema, &execution_props)?;
            let steps = exclude.steps.map(|steps| ExcludeSteps {
                from: steps.from,
                to: steps.to,
            });

            out.push(ExcludeExpr { expr, steps })
        }
        Some(out)
    } else {
        None
    };
''', '''    let exclude = f
        .exclude
        .map(|list| {
            list.into_iter()
                .map(|exclude| {
                    Ok(ExcludeExpr {
                        expr: create_physical_expr(&exclude.expr, &dfschema, &execution_props)?,
                        steps: match exclude.steps {
                            Some(steps) => Some(ExcludeSteps {
                                from: steps.from,
                                to: steps.to,
                            }),
                            None => None,
                        },
                    })
                })
                .collect::<Result<Vec<_>>>()
        })
        .transpose()?;
''')
keep('n21', P0 + 'planner/funnel.rs', '''    FunnelFinalExec::try_new(
        Arc::new(partial),
        match &f.groups {
            None => 0,
            Some(g) => g.len(),
        },
        f.steps.len(),
    )
''', '''    let group_count = f.groups.as_ref().map_or(0, |g| g.len());
    FunnelFinalExec::try_new(Arc::new(partial), group_count, f.steps.len())
''')
keep('n22', P0 + 'planner/funnel.rs', '''    let constants = if let Some(constants) = f.constants {
        Some(
            constants
                .iter()
                .map(|expr| create_physical_expr(expr, &dfschema, &execution_props))
                .collect::<std::result::Result<Vec<_>, _>>()?,
        )
    } else {
        None
    };
''', '''    let constants = match f.constants {
        None => None,
        Some(list) => {
            let mut out = Vec::with_capacity(list.len());
            for expr in &list {
                out.push(create_physical_expr(expr, &dfschema, &execution_props)?);
            }
            Some(out)
        }
    };
''')
keep('n23', P0 + 'planner/funnel.rs', '''        filter: f.filter.map(|filter| match filter {
            logical_plan::funnel::Filter::DropOffOnAnyStep => Filter::DropOffOnAnyStep,
            logical_plan::funnel::Filter::DropOffOnStep(n) => Filter::DropOffOnStep(n),
            logical_plan::funnel::Filter::TimeToConvert(from, to) => {
                Filter::TimeToConvert(from, to)
            }
        }),
''', '''        filter: match f.filter {
            Some(logical_plan::funnel::Filter::TimeToConvert(from, to)) => {
                Some(Filter::TimeToConvert(from, to))
            }
            Some(logical_plan::funnel::Filter::DropOffOnStep(n)) => Some(Filter::DropOffOnStep(n)),
            Some(logical_plan::funnel::Filter::DropOffOnAnyStep) => Some(Filter::DropOffOnAnyStep),
            None => None,
        },
''')
keep('n24', X0 + 'segmentation/time_range.rs', '''            TimeRange::Between(from, to) => ts >= *from && ts <= *to,
            TimeRange::From(from) => ts >= *from,
            TimeRange::Last(since, start_ts) => ts >= *start_ts - *since,
''', '''            TimeRange::Between(from, to) => (*from..=*to).contains(&ts),
            TimeRange::From(from) => !(ts < *from),
            TimeRange::Last(since, start_ts) => {
                let first = start_ts - since;
                first <= ts
            }
''')
keep('n25', X0 + 'segmentation/boolean_op.rs', '''    fn perform(left: T, right: T) -> bool {
        left >= right
    }
''', '''    fn perform(left: T, right: T) -> bool {
        !(left < right)
    }
''', X0 + 'segmentation/boolean_op.rs', '''    fn perform(left: T, right: T) -> bool {
        left > right
    }
''', '''    fn perform(left: T, right: T) -> bool {
        right < left
    }
''')
keep('n26', X0 + 'segmentation/count.rs', '''                if !res {
                    inner.res.append_null();
                } else {
                    let v = inner.last_partition;
                    inner.res.append_value(v);
                }
                inner.last_partition = partition.unwrap();
''', '''                let v = if res { Some(inner.last_partition) } else { None };
                inner.res.append_option(v);
                inner.last_partition = partition.unwrap();
''')
keep('n27', X0 + 'segmentation/aggregate.rs', '''            AggregateFunction::Avg(s, c) => {
                *s = *s + v;
                *c = *c + T::one();
                *s / *c
            }
            AggregateFunction::Count(s) => {
''', '''            AggregateFunction::Avg(sum, count) => {
                *count = *count + T::one();
                *sum = *sum + v;
                *sum / *count
            }
            AggregateFunction::Count(s) => {
''')
keep('n28', X0 + 'segmentation/aggregate.rs', '''                if v < *m {
                    *m = v;
                }
                *m
''', '''                let old = *m;
                *m = if old > v { v } else { old };
                *m
''')
keep('n29', X0 + 'segmentation/aggregate.rs', '''            AggregateFunction::Sum(s) => *s,
            AggregateFunction::Min(m) => *m,
            AggregateFunction::Max(m) => *m,
            AggregateFunction::Avg(s, c) => *s / *c,
            AggregateFunction::Count(s) => T::from(*s).unwrap(),
''', '''            AggregateFunction::Sum(v) | AggregateFunction::Min(v) | AggregateFunction::Max(v) => *v,
            AggregateFunction::Count(n) => *n,
            AggregateFunction::Avg(s, c) => {
                let (sum, count) = (*s, *c);
                sum / count
            }
''')
keep('n30', X0 + 'aggregate/count.rs', '''                let filter = if self.filter.is_some() {
                    Some(
                        self.filter
                            .clone()
                            .unwrap()
                            .evaluate(batch)?
''', '''                let filter = if let Some(filter) = &self.filter {
                    Some(
                        filter
                            .evaluate(batch)?
''')
keep('n31', X0 + 'aggregate/count.rs', '''                    if let Some(filter) = &filter {
                        if !check_filter(filter, row_id) {
                            continue;
                        }
                    }

                    if val.is_none() {
                        continue;
                    }
''', '''                    let passes = match &filter {
                        Some(filter) => check_filter(filter, row_id),
                        None => true,
                    };
                    if !passes || val.is_none() {
                        continue;
                    }
''')
keep('n32', X0 + 'aggregate/count.rs', '''                    for (row, group) in groups.groups.iter_mut() {
                        rows.push(row.row());
                        let res = group.count;
                        res_col_b.append_value(res);
                    }
''', '''                    for (row, group) in groups.groups.iter() {
                        res_col_b.append_value(group.count);
                        rows.push(row.row());
                    }
''')
keep('n33', X0 + 'aggregate/count.rs', '''                    let mut res_col_b = Int64Builder::with_capacity(1);
                    res_col_b.append_value(self.single_group.count);
                    let res_col = res_col_b.finish();
                    let res_col = Arc::new(res_col) as ArrayRef;
                    Ok(vec![res_col])
''', '''                    let mut builder = Int64Builder::with_capacity(1);
                    let total = self.single_group.count;
                    builder.append_value(total);
                    Ok(vec![Arc::new(builder.finish())])
''')
keep('n40', P0 + 'planner/partitioned_aggregate.rs', '''    let ret = groups
        .map(|g| {
            g.iter()
                .map(|(expr, sf)| {
                    create_physical_expr(expr, dfschema, execution_props).map(|physexpr| {
                        let sf = arrow_row::SortField::new(sf.data_type.clone());
                        (
                            physexpr as PhysicalExprRef,
                            expr.display_name().unwrap(),
                            sf,
                        )
                    })
                })
                .collect::<DFResult<Vec<_>>>()
        })
        .transpose()?;

    Ok(ret)
''', '''    let Some(groups) = groups else {
        return Ok(None);
    };
    let mut ret = Vec::with_capacity(groups.len());
    for (expr, sf) in &groups {
        let physexpr: PhysicalExprRef = create_physical_expr(expr, dfschema, execution_props)?;
        let name = expr.display_name()?;
        ret.push((
            physexpr,
            name,
            arrow_row::SortField::new(sf.data_type.clone()),
        ));
    }
    Ok(Some(ret))
''')
keep('n41', P0 + 'planner/partitioned_aggregate.rs', '''    match agg {
        logical_plan::partitioned_aggregate::AggregateFunction::Sum => AggregateFunction::new_sum(),
        logical_plan::partitioned_aggregate::AggregateFunction::Min => AggregateFunction::new_min(),
        logical_plan::partitioned_aggregate::AggregateFunction::Max => AggregateFunction::new_max(),
        logical_plan::partitioned_aggregate::AggregateFunction::Avg => AggregateFunction::new_avg(),
        logical_plan::partitioned_aggregate::AggregateFunction::Count => {
            AggregateFunction::new_count()
        }
    }
''', '''    use logical_plan::partitioned_aggregate::AggregateFunction as Logical;
    match agg {
        Logical::Count => AggregateFunction::new_count(),
        Logical::Avg => AggregateFunction::new_avg(),
        Logical::Max => AggregateFunction::new_max(),
        Logical::Min => AggregateFunction::new_min(),
        Logical::Sum => AggregateFunction::new_sum(),
    }
''')
keep('n42', P0 + 'planner/partitioned_aggregate.rs', '''    match agg {
        logical_plan::partitioned_aggregate::AggregateFunction::Avg => DataType::Float64,
        logical_plan::partitioned_aggregate::AggregateFunction::Count => DataType::Int64,
        logical_plan::partitioned_aggregate::AggregateFunction::Min
        | logical_plan::partitioned_aggregate::AggregateFunction::Max => dt,
        logical_plan::partitioned_aggregate::AggregateFunction::Sum => match dt {
            DataType::Float32 | DataType::Float64 => DataType::Float64,
''', '''    use logical_plan::partitioned_aggregate::AggregateFunction as Agg;
    if matches!(agg, Agg::Min | Agg::Max) {
        return dt;
    }
    match agg {
        Agg::Avg => DataType::Float64,
        Agg::Count => DataType::Int64,
        Agg::Min | Agg::Max => dt,
        Agg::Sum => match dt {
            float if float.is_floating() => DataType::Float64,
''')
keep('n44', P0 + 'planner/partitioned_aggregate.rs', '''            let dt = predicate.data_type(schema)?;
            let expr = match predicate.data_type(schema)? {
                DataType::Int8 => match get_return_type(dt, &agg) {
                    DataType::Float64 => {
                        let agg = aggregate::<f64>(&agg);
                        aggregate!(i8, f64, filter, groups, predicate, partition_col, agg)
                    }
''', '''            let dt = predicate.data_type(schema)?;
            let expr = match dt.clone() {
                DataType::Int8 => match get_return_type(dt, &agg) {
                    DataType::Float64 => {
                        aggregate!(i8, f64, filter, groups, predicate, partition_col, aggregate(&agg))
                    }
''')
keep('n45', L0 + 'partitioned_aggregate.rs', '''        let groups = match self {
            AggregateExpr::Count { groups, .. } => groups,
            AggregateExpr::Aggregate { groups, .. } => groups,
            AggregateExpr::PartitionedCount { groups, .. } => groups,
            AggregateExpr::PartitionedAggregate { groups, .. } => groups,
            // AggregateExpr::Funnel { groups, .. } => groups,
        };

        if let Some(groups) = groups {
            groups.iter().map(|(col, _)| col.clone()).collect()
        } else {
            vec![]
        }
''', '''        let (AggregateExpr::Count { groups, .. }
        | AggregateExpr::Aggregate { groups, .. }
        | AggregateExpr::PartitionedCount { groups, .. }
        | AggregateExpr::PartitionedAggregate { groups, .. }) = self;

        let mut out = vec![];
        for (col, _) in groups.iter().flatten() {
            out.push(col.clone());
        }
        out
''')
keep('n46', L0 + 'partitioned_aggregate.rs', '''                if final_ {
                    vec![Field::new(
                        RESERVED_COLUMN_AGG,
                        schema.field_from_column(predicate)?.data_type().to_owned(),
                        true,
                    )]
                } else {
                    vec![Field::new(
                        RESERVED_COLUMN_AGG,
                        return_type(
                            schema.field_from_column(predicate)?.data_type().to_owned(),
                            agg,
                            schema,
                        ),
                        true,
                    )]
                }
''', '''                let own = schema.field_from_column(predicate)?.data_type().clone();
                let dt = if final_ {
                    own
                } else {
                    return_type(own, agg, schema)
                };
                vec![Field::new(RESERVED_COLUMN_AGG, dt, true)]
''')
keep('n47', L0 + 'partitioned_aggregate.rs', '''            } => AggregateExpr::PartitionedCount {
                filter,
                outer_fn,
                groups,
                partition_col,
                distinct,
            },
''', '''            } => {
                let expr = AggregateExpr::PartitionedCount {
                    distinct,
                    filter,
                    groups,
                    outer_fn,
                    partition_col,
                };
                expr
            }
''')
keep('n48', L0 + 'partitioned_aggregate.rs', '''            query::AggregateFunction::Count => AggregateFunction::Count,
            query::AggregateFunction::Sum => AggregateFunction::Sum,
            query::AggregateFunction::Min => AggregateFunction::Min,
            query::AggregateFunction::Max => AggregateFunction::Max,
            query::AggregateFunction::Avg => AggregateFunction::Avg,
''', '''            query::AggregateFunction::Avg => Self::Avg,
            query::AggregateFunction::Max => Self::Max,
            query::AggregateFunction::Min => Self::Min,
            query::AggregateFunction::Sum => Self::Sum,
            query::AggregateFunction::Count => Self::Count,
''')
keep('n49', P0 + 'segmented_aggregate.rs', '''        let group_fields = input_schema
            .fields
            .iter()
            .filter(|f| group_cols.contains_key(f.name()))
            .cloned()
            .collect::<Vec<_>>();
        let group_fields = [vec![segment_field], group_fields].concat();
        let fields: Vec<FieldRef> = [group_fields.clone(), agg_result_fields].concat();
        let schema = Schema::new(fields);
        let cache = Self::compute_properties(&input)?;
        Ok(Self {
            input,
            agg_expr,
            schema: Arc::new(schema),
            agg_schemas,
            metrics: ExecutionPlanMetricsSet::new(),
            cache,
            group_fields,
        })
''', '''        let mut group_fields: Vec<FieldRef> = vec![segment_field];
        for f in input_schema.fields.iter() {
            if group_cols.contains_key(f.name()) {
                group_fields.push(f.clone());
            }
        }
        let mut fields = group_fields.clone();
        fields.extend(agg_result_fields);
        let cache = Self::compute_properties(&input)?;
        Ok(Self {
            input,
            agg_expr,
            schema: Arc::new(Schema::new(fields)),
            agg_schemas,
            metrics: ExecutionPlanMetricsSet::new(),
            cache,
            group_fields,
        })
''')
