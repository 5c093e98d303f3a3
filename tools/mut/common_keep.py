Q = 'src/common/src/query.rs'; T = 'src/common/src/types.rs'; H = 'src/common/src/http.rs'; S = 'src/common/src/scalar.rs'; F = 'src/common/src/funnel.rs'; ES = 'src/common/src/event_segmentation.rs'
keep('kc1', Q, '''        let value = Some(value);
    let value = match granularity {'''.replace('        let', '    let'), '''    let value = Some(value);
    let midnight = |d: DateTime<Utc>| {
        d.with_nanosecond(0)
            .and_then(|d| d.with_second(0))
            .and_then(|d| d.with_minute(0))
            .and_then(|d| d.with_hour(0))
    };
    let value = match granularity {''', Q, '''        TimeIntervalUnit::Day => value
            .and_then(|d| d.with_nanosecond(0))
            .and_then(|d| d.with_second(0))
            .and_then(|d| d.with_minute(0))
            .and_then(|d| d.with_hour(0)),''', '        TimeIntervalUnit::Day => value.and_then(midnight),', Q, '''            .and_then(|d| d.with_hour(0))
            .map(|d| d - Duration::seconds(60 * 60 * 24 * d.weekday() as i64)),''', '''            .and_then(|d| d.with_hour(0))
            .map(|d| {
                let days = d.weekday().num_days_from_monday() as i64;
                d - Duration::seconds(days * 24 * 3600)
            }),''')
keep('kc2', Q, '''            .and_then(|d| d.with_hour(0))
            .map(|d| d - Duration::seconds(60 * 60 * 24 * d.weekday() as i64)),''', '''            .and_then(|d| d.with_hour(0))
            .map(|d| d - Duration::days(d.weekday() as i64)),''')
keep('kc3', Q, '''pub fn date_trunc(granularity: &TimeIntervalUnit, value: DateTime<Utc>) -> Result<DateTime<Utc>> {
    let value = Some(value);''', '''fn start_of_hour(value: DateTime<Utc>) -> Option<DateTime<Utc>> {
    value.with_nanosecond(0)?.with_second(0)?.with_minute(0)
}

pub fn date_trunc(granularity: &TimeIntervalUnit, value: DateTime<Utc>) -> Result<DateTime<Utc>> {
    if let TimeIntervalUnit::Hour = granularity {
        return Ok(start_of_hour(value).unwrap());
    }
    let value = Some(value);''')
keep('kc4', Q, '''    rule.with_end(to + granularity.relative_duration(1))
        .map(|dt| dt.naive_utc().format("%Y-%m-%dT%H:%M:%S").to_string())
        .collect()''', '''    let end = to + granularity.relative_duration(1);
    let mut cols = Vec::new();
    for dt in rule.with_end(end) {
        cols.push(dt.naive_utc().format("%Y-%m-%dT%H:%M:%S").to_string());
    }
    cols''')
keep('kc5', Q, '''            QueryTime::Last { last, unit } => (cur_time - unit.relative_duration(*last), cur_time),
        }''', '''            QueryTime::Last { last, unit } => {
                let start = cur_time - unit.relative_duration(*last);
                let end = cur_time;
                (start, end)
            }
        }''')
keep('kc6', Q, '''            SegmentTime::Each { n, unit } => Some(unit.duration(*n).num_milliseconds()),
            _ => None,
        }''', '''            SegmentTime::Each { n, unit } => {
                let d = unit.duration(*n);
                Some(d.num_milliseconds())
            }
            SegmentTime::Between { .. } | SegmentTime::From(_) => None,
            SegmentTime::Last { .. } | SegmentTime::AfterFirstUse { .. } => None,
        }''')
keep('kc7', Q, '''        match self {
            SegmentTime::Each { n, unit } => Some(unit.duration(*n).num_milliseconds()),
            _ => None,
        }''', '''        if let SegmentTime::Each { n, unit } = self {
            return Some(unit.duration(*n).num_milliseconds());
        }
        None''')
keep('kc8', Q, '''            TimeIntervalUnit::Month => Duration::days(n * 31),
            TimeIntervalUnit::Year => Duration::days(n * 31 * 12),
        }
    }
    pub fn relative''', '''            TimeIntervalUnit::Month => Duration::days(DAYS_IN_MONTH * n),
            TimeIntervalUnit::Year => Self::Month.duration(n * 12),
        }
    }
    pub fn relative''', Q, 'impl TimeIntervalUnit {', 'const DAYS_IN_MONTH: i64 = 31;\n\nimpl TimeIntervalUnit {')
keep('kc9', Q, '''        matches!(
            self,
            PropValueOperation::True
                | PropValueOperation::False
                | PropValueOperation::Exists
                | PropValueOperation::Empty
        )''', '''        match self {
            PropValueOperation::True | PropValueOperation::False => true,
            PropValueOperation::Exists => true,
            PropValueOperation::Empty => true,
            _ => false,
        }''')
keep('kc10', Q, '''            PropValueOperation::NotRegex => Operator::RegexNotMatch,
            _ => unimplemented!(),
        }
    }
}''', '''            PropValueOperation::NotRegex => Operator::RegexNotMatch,
            PropValueOperation::True | PropValueOperation::False => unimplemented!(),
            other => unimplemented!("{:?}", other),
        }
    }
}''')
keep('kc11', H, '''        Self {
            status: self.status,
            code: self.code,
            message: Some(message),
            fields: self.fields,
        }''', '''        Self {
            message: Some(message),
            ..self
        }''')
keep('kc12', H, '''    pub fn with_fields(self, fields: BTreeMap<String, String>) -> Self {
        Self {
            status: self.status,
            code: self.code,
            message: self.message,
            fields,
        }
    }''', '''    pub fn with_fields(mut self, fields: BTreeMap<String, String>) -> Self {
        self.fields = fields;
        self
    }''')
keep('kc13', H, '''        Self {
            status: self.status,
            code: self.code,
            message: self.message.map(|msg| format!("{msg}: {inner}")),
            fields: self.fields,
        }''', '''        let message = match self.message {
            Some(msg) => Some(format!("{}: {}", msg, inner)),
            None => None,
        };
        Self {
            status: self.status,
            code: self.code,
            message,
            fields: self.fields,
        }''')
keep('kc14', H, '''        ApiError::new(StatusCode::BAD_REQUEST).with_message(err.to_string())''', '''        Self::from_status(StatusCode::BAD_REQUEST, err)''', H, '''impl ApiError {
''', '''impl ApiError {
    fn from_status(status: StatusCode, err: impl ToString) -> Self {
        let message = err.to_string();
        ApiError::new(status).with_message(message)
    }
''')
keep('kc15', H, '''        match axum::Json::<T>::from_request(req, state).await {
            Ok(v) => Ok(Json(v.0)),''', '''        let parsed = axum::Json::<T>::from_request(req, state).await;
        match parsed {
            Ok(axum::Json(v)) => Ok(Json(v)),''')
keep('kc16', H, '''    headers
        .get(http::header::CONTENT_LENGTH)
        .and_then(|value| value.to_str().ok()?.parse::<u64>().ok())''', '''    let value = headers.get(http::header::CONTENT_LENGTH)?;
    let text = value.to_str().ok()?;
    text.parse::<u64>().ok()''')
keep('kc17', T, '''            DType::List(v) => {
                let s = match v.as_ref() {
                    DType::String => "str".to_string(),
                    DType::Int8 => "i8".to_string(),
                    DType::Int16 => "i16".to_string(),
                    DType::Int32 => "i32".to_string(),
                    DType::Int64 => "i64".to_string(),
                    DType::Decimal => "d".to_string(),
                    DType::Boolean => "b".to_string(),
                    DType::Timestamp => "ts".to_string(),
                    _ => unimplemented!(),
                };
                format!("l_{}", s)
            }''', '''            DType::List(v) => match v.as_ref() {
                DType::List(_) => unimplemented!(),
                scalar => format!("l_{}", scalar.short_name()),
            },''')
keep('kc18', T, '''        match self {
            OptionalProperty::None => OptionalProperty::None,
            OptionalProperty::Some(v) => OptionalProperty::Some(f(v)),
        }''', '''        if let OptionalProperty::Some(v) = self {
            OptionalProperty::Some(f(v))
        } else {
            OptionalProperty::None
        }''')
keep('kc19', T, '''        let a = Deserialize::deserialize(de);
        a.map(OptionalProperty::Some)''', '''        let value = T::deserialize(de)?;
        Ok(OptionalProperty::Some(value))''')
keep('kc20', T, '''        Ok(match self {
            OptionalProperty::None => OptionalProperty::None,
            OptionalProperty::Some(v) => OptionalProperty::Some(v.try_into()?),
        })''', '''        match self {
            OptionalProperty::None => Ok(OptionalProperty::None),
            OptionalProperty::Some(v) => v.try_into().map(OptionalProperty::Some),
        }''')
keep('kc21', S, '''        Ok(ScalarValueRef::deserialize(deserializer)?.into())''', '''        let scalar = ScalarValueRef::deserialize(deserializer)?;
        Ok(ScalarValue::from(scalar))''')
keep('kc22', S, '''        ScalarValueRef::serialize(&ScalarValueRef::from(value), serializer)''', '''        let scalar: ScalarValueRef = value.into();
        scalar.serialize(serializer)''')
keep('kc23', ES, '''            Query::CountUniqueGroups | Query::DailyActiveGroups | Query::CountPerGroup { .. } => {
                "partitioned_count"
            }''', '''            Query::CountUniqueGroups => "partitioned_count",
            Query::DailyActiveGroups => "partitioned_count",
            Query::CountPerGroup { .. } => "partitioned_count",''')
keep('kc24', ES, '''                format!("{}({})", aggregate, property.name())''', '''                let prop = property.name();
                format!("{aggregate}({prop})")''')
keep('kc25', ES, '''        let (from, to) = self.time.range(cur_time);
        time_columns(from, to, &self.interval_unit)''', '''        let range = self.time.range(cur_time);
        time_columns(range.0, range.1, &self.interval_unit)''')
keep('kc26', F, '''            ChartType::Steps => None,
            ChartType::ConversionOverTime { interval_unit } => Some(interval_unit),
            ChartType::TimeToConvert { interval_unit, .. } => Some(interval_unit),
            ChartType::Frequency => None,''', '''            ChartType::ConversionOverTime { interval_unit }
            | ChartType::TimeToConvert { interval_unit, .. } => Some(interval_unit),
            ChartType::Steps | ChartType::Frequency => None,''')
keep('kc27', 'src/common/src/rbac.rs', '''lazy_static! {''', '''fn schema_permissions() -> Vec<ProjectPermission> {
    vec![ProjectPermission::ViewSchema, ProjectPermission::ManageSchema]
}

lazy_static! {''', 'src/common/src/rbac.rs', '''        (ProjectRole::Member, vec![
            ProjectPermission::ExploreReports,
            ProjectPermission::ManageReports,
            ProjectPermission::ViewSchema,
            ProjectPermission::ManageSchema,
        ]),''', '''        (ProjectRole::Member, [vec![ProjectPermission::ExploreReports, ProjectPermission::ManageReports], schema_permissions()].concat()),''')
keep('kc28', 'src/common/src/rbac.rs', '''            ProjectPermission::ManageProject,
            ProjectPermission::InviteMembers,
            ProjectPermission::ManageMembers,''', '''            ProjectPermission::InviteMembers,
            ProjectPermission::ManageMembers,
            ProjectPermission::ManageProject,''')
keep('kc29', 'src/common/src/lib.rs', '''    format!("group_{group_id}")''', '''    let prefix = "group_";
    format!("{}{}", prefix, group_id)''')
keep('kc30', 'src/common/src/lib.rs', '''    format!("group_{group_id}")''', '''    let mut name = String::from("group_");
    name.push_str(&group_id.to_string());
    name''')
keep('kc31', H, '''        (self.status, Json(ApiErrorWrapper { error: self })).into_response()''', '''        let status = self.status;
        let body = Json(ApiErrorWrapper { error: self });
        (status, body).into_response()''')
keep('kc32', H, '''    let (parts, body) = req.into_parts();
    let bytes = buffer_and_print("request", body).await?;
    let req = Request::from_parts(parts, Body::from(bytes));

    let res = next.run(req).await;

    Ok(res)''', '''    let (parts, body) = req.into_parts();
    match buffer_and_print("request", body).await {
        Ok(bytes) => Ok(next.run(Request::from_parts(parts, Body::from(bytes))).await),
        Err(err) => Err(err),
    }''')
keep('kc33', Q, '''            TimeIntervalUnit::Hour => Duration::hours(n),''', '''            TimeIntervalUnit::Hour => Duration::minutes(60 * n),''')
keep('kc34', Q, '''    let from = date_trunc(granularity, from).unwrap();
    let to = date_trunc(granularity, to).unwrap();
    let rule = match granularity {
        TimeIntervalUnit::Hour => DateRule::hourly(from),
        TimeIntervalUnit::Day => DateRule::daily(from),
        TimeIntervalUnit::Week => DateRule::weekly(from),
        TimeIntervalUnit::Month => DateRule::monthly(from),
        TimeIntervalUnit::Year => DateRule::yearly(from),
    };
''', '''    let to = date_trunc(granularity, to).unwrap();
    let from = date_trunc(granularity, from).unwrap();
    let rule = DateRule::new(from, granularity.relative_duration(1));
''')
