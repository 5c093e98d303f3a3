L_ = "src/query/src/logical_plan/"
P_ = "src/query/src/physical_plan/"
keep("o1", L_ + "pivot.rs", """                .filter_map(|f| {
                    match f.name().clone() == name_col.name || f.name().clone() == value_col.name {
                        true => None,
                        false => Some(f.to_owned()),
                    }
                })
                .collect::<Vec<_>>();""", """                .filter(|f| f.name() != &name_col.name && f.name() != &value_col.name)
                .cloned()
                .collect::<Vec<_>>();""")
keep("o2", L_ + "pivot.rs", """            let mut result_fields = result_cols
                .iter()
                .map(|col| FieldRef::new(Field::new(col, value_type.clone(), true)))
                .collect();

            fields.append(&mut result_fields);
""", """            for col in &result_cols {
                fields.push(FieldRef::new(Field::new(col, value_type.clone(), true)));
            }
""")
keep("o3", L_ + "pivot.rs", """        match other.as_any().downcast_ref::<Self>() {
            Some(o) => self == o,

            None => false,
        }""", """        other
            .as_any()
            .downcast_ref::<Self>()
            .map_or(false, |o| self == o)""")
keep("o4", L_ + "pivot.rs", """        match other.as_any().downcast_ref::<Self>() {
            Some(o) => self == o,

            None => false,
        }""", """        if let Some(o) = other.as_any().downcast_ref::<Self>() {
            return *self == *o;
        }
        false""")
keep("o5", L_ + "rename_columns.rs", """                for col in columns.iter() {
                    if *v.name() == col.0 {
                        return FieldRef::new(Field::new(
                            &col.1,
                            v.data_type().clone(),
                            v.is_nullable(),
                        ));
                    }
                }
                v.to_owned()""", """                match columns.iter().find(|(from, _)| from == v.name()) {
                    Some((_, to)) => FieldRef::new(Field::new(
                        to,
                        v.data_type().clone(),
                        v.is_nullable(),
                    )),
                    None => v.clone(),
                }""")
keep("o6", L_ + "reorder_columns.rs", """        for field in schema.fields().iter() {
            if !columns.contains(field.name()) {
                reordered_cols.push(field.clone());
            }
        }""", """        reordered_cols.extend(
            schema
                .fields()
                .iter()
                .filter(|field| !columns.contains(field.name()))
                .cloned(),
        );""")
keep("o7", L_ + "dictionary_decode.rs", """                match decode_cols
                    .iter()
                    .find(|(col, _)| *field.name() == col.name)
                {
                    Some(_) => Arc::new(Field::new(
                        field.name().as_str(),
                        DataType::Utf8,
                        field.is_nullable(),
                    )),
                    None => field.to_owned(),
                }""", """                if decode_cols.iter().any(|(col, _)| *field.name() == col.name) {
                    return Arc::new(Field::new(
                        field.name(),
                        DataType::Utf8,
                        field.is_nullable(),
                    ));
                }
                field.clone()""")
keep("o8", P_ + "pivot.rs", """            let group_fields: Vec<Field> = group_cols
                .iter()
                .map(|col| input.schema().field(col.index()).clone())
                .collect();
            let result_fields: Vec<Field> = result_cols
                .iter()
                .map(|col| Field::new(col, value_type.clone(), true))
                .collect();

            Arc::new(Schema::new([group_fields, result_fields].concat()))""", """            let in_schema = input.schema();
            let group_fields = group_cols.iter().map(|col| in_schema.field(col.index()).clone());
            let result_fields = result_cols
                .iter()
                .map(|col| Field::new(col, value_type.clone(), true));

            Arc::new(Schema::new(
                group_fields.chain(result_fields).collect::<Vec<Field>>(),
            ))""")
keep("o9", P_ + "pivot.rs", """            .filter_map(|(idx, f)| {
                match f.name() == name_col.name() || f.name() == value_col.name() {
                    true => None,
                    false => Some(Column::new(f.name(), idx)),
                }
            })""", """            .filter(|(_, f)| ![name_col.name(), value_col.name()].contains(&f.name().as_str()))
            .map(|(idx, f)| Column::new(f.name(), idx))""")
brk("o10", "C21", L_ + "pivot.rs", "Field::new(col, value_type.clone(), true)", "Field::new(col, value_type.clone(), false)")
brk("o11", "C21", P_ + "pivot.rs", "Field::new(col, value_type.clone(), true)", "Field::new(col, value_type.clone(), false)")
brk("o12", "C21", P_ + "rename_columns.rs", "                            f.is_nullable(),", "                            true,")
brk("o13", "C21", P_ + "unpivot.rs", """    fn schema(&self) -> SchemaRef {
        self.schema.clone()
    }

    fn properties""", """    fn schema(&self) -> SchemaRef {
        self.input.schema()
    }

    fn properties""")
brk("o14", "C21", P_ + "pivot.rs", "Self::compute_properties(&input, schema.clone())?", "Self::compute_properties(&input, input.schema())?")
keep("o15", P_ + "unpivot.rs", """            let mut fields = input
                .schema()
                .fields()
                .iter()
                .filter_map(|f| match cols.contains(f.name()) {
                    true => None,
                    false => Some(f.clone()),
                })
                .collect::<Vec<_>>();
""", """            let in_schema = input.schema();
            let mut fields = Vec::with_capacity(in_schema.fields().len() + 2);
            for f in in_schema.fields().iter() {
                if cols.iter().any(|c| c == f.name()) {
                    continue;
                }
                fields.push(f.clone());
            }
""")
keep("o16", P_ + "unpivot.rs", """        let mut uniq_cols = cols.clone();
        uniq_cols.sort();
        uniq_cols.dedup();
        if cols.len() != uniq_cols.len() {
            return Err(QueryError::Plan("non-unique column".to_string()));
        }
""", """        let uniq_cols: std::collections::HashSet<_> = cols.iter().collect();
        if uniq_cols.len() < cols.len() {
            return Err(QueryError::Plan("non-unique column".to_string()));
        }
""")
keep("o17", L_ + "add_string_column.rs", """        let fields = [
            vec![(None, Arc::new(Field::new(&col.0, DataType::Utf8, false)))],
            schema
                .fields()
                .iter()
                .map(|f| (None, f.to_owned()))
                .collect::<Vec<_>>(),
        ]
        .concat();
""", """        let added = Arc::new(Field::new(&col.0, DataType::Utf8, false));
        let fields = std::iter::once(added)
            .chain(schema.fields().iter().cloned())
            .map(|f| (None, f))
            .collect::<Vec<_>>();
""")
keep("o18", P_ + "aggregate_and_sort_columns.rs", """        for (idx, f) in schema.fields.iter().enumerate() {
            cols.push(f.to_owned());
            if idx == groups - 1 {
                let col = Arc::new(Field::new(
                    "Average",
                    DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),
                    false,
                ));
                cols.push(col);
            }
        }""", """        let average = Arc::new(Field::new(
            "Average",
            DataType::Decimal128(DECIMAL_PRECISION, DECIMAL_SCALE),
            false,
        ));
        for (idx, f) in schema.fields.iter().enumerate() {
            cols.push(f.to_owned());
            if idx + 1 == groups {
                cols.push(average.clone());
            }
        }""")
keep("o19", P_ + "unpivot.rs", """    fn schema(&self) -> SchemaRef {
        self.schema.clone()
    }

    fn properties""", """    fn schema(&self) -> SchemaRef {
        let announced = Arc::clone(&self.schema);
        announced
    }

    fn properties""")
