C = 'src/common/src/'
seed('S01', 'C01', [(C+'rbac.rs', '''            ProjectPermission::ExploreReports,
            ProjectPermission::ManageReports,
            ProjectPermission::ViewSchema,
            ProjectPermission::ManageSchema,
        ]),
        (ProjectRole::Reader, vec![''', '''            ProjectPermission::ExploreReports,
            ProjectPermission::ManageReports,
            ProjectPermission::ViewSchema,
            ProjectPermission::ManageSchema,
            ProjectPermission::ManageProject,
        ]),
        (ProjectRole::Reader, vec![''')],
 'a caller whose only role in the project is Member asks for project management',
 'project members may change and reconfigure the project',
 demo='''use common::rbac::*;
#[test]
fn members_do_not_manage_the_project() {
    let perms = |r: ProjectRole| PROJECT_PERMISSIONS.iter().filter(|(x, _)| *x == r).flat_map(|(_, p)| p.clone()).collect::<Vec<_>>();
    for r in [ProjectRole::Member, ProjectRole::Reader] {
        for p in perms(r.clone()) {
            assert!(![ProjectPermission::All, ProjectPermission::ManageProject, ProjectPermission::DeleteProject, ProjectPermission::InviteMembers, ProjectPermission::ManageMembers, ProjectPermission::DeleteSchema].contains(&p), "{r:?} may {p:?}");
        }
    }
    assert!(perms(ProjectRole::Admin).contains(&ProjectPermission::ManageProject));
}
''')
seed('S02', 'C03', [(C+'scalar.rs', 'ScalarValueRef::LargeBinary(v) => ScalarValue::LargeBinary(v)', 'ScalarValueRef::LargeBinary(v) => ScalarValue::Binary(v)')],
 'a filter value of the large binary kind is read back from its stored JSON form',
 'large binary filter values come back as plain binary values',
 demo='''use common::scalar::ScalarValueRef;
use datafusion_common::ScalarValue;
#[test]
fn scalar_kinds_survive() {
    for v in [ScalarValue::Binary(Some(vec![1, 2])), ScalarValue::LargeBinary(Some(vec![1, 2])), ScalarValue::LargeBinary(None), ScalarValue::Int8(Some(3)), ScalarValue::Utf8(Some("x".into()))] {
        let r = ScalarValueRef::from(&v);
        let json = serde_json::to_string(&r).unwrap();
        let back: ScalarValueRef = serde_json::from_str(&json).unwrap();
        let w: ScalarValue = back.into();
        assert_eq!(v.data_type(), w.data_type());
        assert_eq!(v, w);
    }
}
''')
seed('S03', 'C04', [(C+'query.rs', 'rule.with_end(to + granularity.relative_duration(1))', 'rule.with_end(to + granularity.duration(1))')],
 'a monthly or yearly chart whose last month is shorter than 31 days (or a year)',
 'a chart by month gets an extra, empty bucket after its last month',
 demo='''use chrono::{TimeZone, Utc};
use common::query::{time_columns, TimeIntervalUnit};
#[test]
fn monthly_buckets() {
    let c = time_columns(Utc.with_ymd_and_hms(2023, 1, 5, 1, 2, 3).unwrap(), Utc.with_ymd_and_hms(2023, 2, 10, 0, 0, 0).unwrap(), &TimeIntervalUnit::Month);
    assert_eq!(c, vec!["2023-01-01T00:00:00", "2023-02-01T00:00:00"]);
    let c = time_columns(Utc.with_ymd_and_hms(2023, 3, 5, 1, 2, 3).unwrap(), Utc.with_ymd_and_hms(2023, 3, 10, 0, 0, 0).unwrap(), &TimeIntervalUnit::Month);
    assert_eq!(c, vec!["2023-03-01T00:00:00"]);
}
''')
seed('S04', 'C04', [(C+'query.rs', '''            .and_then(|d| d.with_hour(0))
            .and_then(|d| d.with_day0(0))
            .and_then(|d| d.with_month0(0)),''', '''            .and_then(|d| d.with_hour(0))
            .and_then(|d| d.with_day0(0))
            .and_then(|d| d.with_month0(d.month0() % 12 / 12 + d.month0() / 11)),''')],
 'a yearly chart that starts in December',
 'the first bucket of a yearly chart starting in December begins in February',
 demo='''use chrono::{TimeZone, Utc};
use common::query::{date_trunc, TimeIntervalUnit};
#[test]
fn years_start_in_january() {
    for m in 1..=12 {
        for d in [1, 28] {
            let v = Utc.with_ymd_and_hms(2024, m, d, 13, 14, 15).unwrap();
            assert_eq!(date_trunc(&TimeIntervalUnit::Year, v).unwrap(), Utc.with_ymd_and_hms(2024, 1, 1, 0, 0, 0).unwrap(), "{v}");
            assert_eq!(date_trunc(&TimeIntervalUnit::Month, v).unwrap(), Utc.with_ymd_and_hms(2024, m, 1, 0, 0, 0).unwrap(), "{v}");
        }
    }
}
''')
seed('S05', 'C05', [(C+'http.rs', '''            code: self.code,
            message: self.message,
            fields,''', '''            code: self.code,
            message: self.message.filter(|_| fields.is_empty()),
            fields,''')],
 'a request body that is valid JSON but has a missing or unknown field',
 'the error response loses its message exactly when the offending field is reported',
 demo='''use std::collections::BTreeMap;
use common::http::ApiError;
#[test]
fn message_survives_fields() {
    let e = ApiError::bad_request("missing field").with_fields(BTreeMap::from([("name".to_string(), "missing".to_string())]));
    assert_eq!(e.message.as_deref(), Some("missing field"));
    assert_eq!(e.fields.len(), 1);
    let v = serde_json::to_value(&e).unwrap();
    assert_eq!(v["status"], 400);
    assert_eq!(v["message"], "missing field");
}
''')
seed('S06', 'C06', [(C+'types.rs', '''                    DType::Timestamp => "ts".to_string(),
                    _ => unimplemented!(),''', '''                    DType::Timestamp => "i64".to_string(),
                    _ => unimplemented!(),''')],
 'a list property of timestamps next to a list property of 64 bit integers',
 'list columns of timestamps get the column name of integer list columns and collide with them',
 demo='''use common::types::DType;
use std::collections::HashSet;
#[test]
fn short_names_differ() {
    let base = [DType::String, DType::Int8, DType::Int16, DType::Int32, DType::Int64, DType::Decimal, DType::Boolean, DType::Timestamp];
    let mut s = HashSet::new();
    for b in base.iter() {
        assert!(s.insert(b.short_name()));
        assert!(s.insert(DType::List(Box::new(b.clone())).short_name()));
    }
}
''')
seed('S07', 'C08', [(C+'types.rs', '''        match self {
            OptionalProperty::None => OptionalProperty::None,
            OptionalProperty::Some(v) => OptionalProperty::Some(f(v)),
        }''', '''        if std::mem::size_of::<U>() == 0 || self.is_none() {
            return OptionalProperty::None;
        }
        match self {
            OptionalProperty::None => OptionalProperty::None,
            OptionalProperty::Some(v) => OptionalProperty::Some(f(v)),
        }''')],
 'an update whose supplied field maps to a type without content',
 'a supplied field of an update is treated as not supplied',
 demo='''use common::types::OptionalProperty;
#[test]
fn supplied_stays_supplied() {
    assert_eq!(OptionalProperty::Some(3).map(|v| v + 1), OptionalProperty::Some(4));
    assert_eq!(OptionalProperty::Some(3).map(|_| ()), OptionalProperty::Some(()));
    assert_eq!(OptionalProperty::<u8>::None.map(|_| ()), OptionalProperty::None);
}
''')
