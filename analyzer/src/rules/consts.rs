//! Names and numbers that stored data, clients and dashboards of earlier releases rely on.
pub const RELEASED: &[(&str, &str)] = &[
    ("common::types::DECIMAL_PRECISION", "28"),
    ("common::types::DECIMAL_SCALE", "16"),
    ("common::types::ROUND_DIGITS", "3"),
    ("common::types::TABLE_EVENTS", "\"events\""),
    ("common::types::COLUMN_PROJECT_ID", "\"project_id\""),
    ("common::types::COLUMN_CREATED_AT", "\"created_at\""),
    ("common::types::COLUMN_EVENT_ID", "\"event_id\""),
    ("common::types::COLUMN_EVENT", "\"event\""),
    ("common::types::COLUMN_IP", "\"ip\""),
    ("common::types::COLUMN_SEGMENT", "\"segment\""),
    ("common::types::GROUP_COLUMN_PROJECT_ID", "\"project_id\""),
    ("common::types::GROUP_COLUMN_ID", "\"id\""),
    ("common::types::GROUP_COLUMN_VERSION", "\"version\""),
    ("common::types::GROUP_COLUMN_CREATED_AT", "\"created_at\""),
    ("common::types::EVENT_PROPERTY_NAME", "\"Name\""),
    ("common::types::EVENT_PROPERTY_HREF", "\"Href\""),
    ("common::types::EVENT_PROPERTY_ID", "\"ID\""),
    ("common::types::EVENT_PROPERTY_CLASS", "\"Class\""),
    ("common::types::EVENT_PROPERTY_TEXT", "\"Text\""),
    ("common::types::EVENT_PROPERTY_ELEMENT", "\"Element\""),
    ("common::types::EVENT_PROPERTY_PAGE_PATH", "\"Page Path\""),
    ("common::types::EVENT_PROPERTY_PAGE_REFERER", "\"Page Referer\""),
    ("common::types::EVENT_PROPERTY_PAGE_SEARCH", "\"Page Search\""),
    ("common::types::EVENT_PROPERTY_PAGE_TITLE", "\"Page Title\""),
    ("common::types::EVENT_PROPERTY_PAGE_URL", "\"Page URL\""),
    ("common::types::EVENT_PROPERTY_SESSION_LENGTH", "\"Session Length\""),
    ("common::types::EVENT_PROPERTY_CLIENT_FAMILY", "\"Client Family\""),
    ("common::types::EVENT_PROPERTY_CLIENT_VERSION_MINOR", "\"Client Version Minor\""),
    ("common::types::EVENT_PROPERTY_CLIENT_VERSION_MAJOR", "\"Client Version Major\""),
    ("common::types::EVENT_PROPERTY_CLIENT_VERSION_PATCH", "\"Version Patch\""),
    ("common::types::EVENT_PROPERTY_DEVICE_FAMILY", "\"Device Family\""),
    ("common::types::EVENT_PROPERTY_DEVICE_BRAND", "\"Device Brand\""),
    ("common::types::EVENT_PROPERTY_DEVICE_MODEL", "\"Device Model\""),
    ("common::types::EVENT_PROPERTY_OS", "\"OS\""),
    ("common::types::EVENT_PROPERTY_OS_FAMILY", "\"OS Family\""),
    ("common::types::EVENT_PROPERTY_OS_VERSION_MAJOR", "\"OS Version Major\""),
    ("common::types::EVENT_PROPERTY_OS_VERSION_MINOR", "\"OS Version Minor\""),
    ("common::types::EVENT_PROPERTY_OS_VERSION_PATCH", "\"OS Version Patch\""),
    ("common::types::EVENT_PROPERTY_OS_VERSION_PATCH_MINOR", "\"OS Version Patch Minor\""),
    ("common::types::EVENT_PROPERTY_COUNTRY", "\"Country\""),
    ("common::types::EVENT_PROPERTY_CITY", "\"City\""),
    ("common::types::EVENT_PROPERTY_UTM_SOURCE", "\"UTM Source\""),
    ("common::types::EVENT_PROPERTY_UTM_MEDIUM", "\"UTM Medium\""),
    ("common::types::EVENT_PROPERTY_UTM_CAMPAIGN", "\"UTM Campaign\""),
    ("common::types::EVENT_PROPERTY_UTM_TERM", "\"UTM Term\""),
    ("common::types::EVENT_PROPERTY_UTM_CONTENT", "\"UTM Content\""),
    ("common::types::EVENT_CLICK", "\"Click\""),
    ("common::types::EVENT_PAGE", "\"Page\""),
    ("common::types::EVENT_SCREEN", "\"Screen\""),
    ("common::types::EVENT_SESSION_BEGIN", "\"Session Begin\""),
    ("common::types::EVENT_SESSION_END", "\"Session End\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_TOTAL", "\"total\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_COMPLETED", "\"completed\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_CONVERSION_RATIO", "\"conversion_ratio\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_AVG_TIME_TO_CONVERT", "\"avg_time_to_convert\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_AVG_TIME_TO_CONVERT_FROM_START", "\"avg_time_to_convert_from_start\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_DROPPED_OFF", "\"dropped_off\""),
    ("common::types::RESERVED_COLUMN_FUNNEL_DROP_OFF_RATIO", "\"drop_off_ratio\""),
    ("common::types::RESERVED_COLUMN_AGG_PARTITIONED_AGGREGATE", "\"partitioned_agg\""),
    ("common::types::RESERVED_COLUMN_AGG_PARTITIONED_COUNT", "\"partitioned_count\""),
    ("common::types::RESERVED_COLUMN_AGG", "\"agg\""),
    ("common::types::RESERVED_COLUMN_COUNT", "\"count\""),
    ("common::types::METRIC_STORE_INSERTS_TOTAL", "\"optiprism_store_inserts_total\""),
    ("common::types::METRIC_STORE_INSERT_TIME_SECONDS", "\"optiprism_store_insert_time_seconds\""),
    ("common::types::METRIC_STORE_SCANS_TOTAL", "\"optiprism_store_scans_total\""),
    ("common::types::METRIC_STORE_SCAN_TIME_SECONDS", "\"optiprism_store_scan_time_seconds\""),
    ("common::types::METRIC_STORE_SCAN_PARTS", "\"optiprism_store_scan_parts\""),
    ("common::types::METRIC_STORE_PARTS", "\"optiprism_store_parts\""),
    ("common::types::METRIC_STORE_PARTS_SIZE_BYTES", "\"optiprism_store_parts_size_bytes\""),
    ("common::types::METRIC_STORE_PART_SIZE_BYTES", "\"optiprism_store_part_size_bytes\""),
    ("common::types::METRIC_STORE_PART_VALUES", "\"optiprism_store_part_values\""),
    ("common::types::METRIC_STORE_PARTS_VALUES", "\"optiprism_store_parts_values\""),
    ("common::types::METRIC_STORE_MERGES_TOTAL", "\"optiprism_store_merges_total\""),
    ("common::types::METRIC_STORE_MERGE_TIME_SECONDS", "\"optiprism_store_merge_time_seconds\""),
    ("common::types::METRIC_STORE_TABLE_FIELDS", "\"optiprism_store_table_fields\""),
    ("common::types::METRIC_STORE_MEMTABLE_ROWS", "\"optiprism_store_memtable_rows\""),
    ("common::types::METRIC_STORE_SCAN_MEMTABLE_SECONDS", "\"optiprism_store_scan_memtable_seconds\""),
    ("common::types::METRIC_STORE_COMPACTIONS_TOTAL", "\"optiprism_store_compactions_total\""),
    ("common::types::METRIC_STORE_LEVEL_COMPACTION_TIME_SECONDS", "\"optiprism_store_level_compaction_time_seconds\""),
    ("common::types::METRIC_STORE_COMPACTION_TIME_SECONDS", "\"optiprism_store_compaction_time_seconds\""),
    ("common::types::METRIC_STORE_RECOVERY_TIME_SECONDS", "\"optiprism_store_recovery_time_seconds\""),
    ("common::types::METRIC_STORE_FLUSH_TIME_SECONDS", "\"optiprism_store_flush_time_seconds\""),
    ("common::types::METRIC_STORE_FLUSHES_TOTAL", "\"optiprism_store_flushes_total\""),
    ("common::types::METRIC_INGESTER_TRACKED_TOTAL", "\"optiprism_ingester_tracked_total\""),
    ("common::types::METRIC_INGESTER_TRACK_TIME_SECONDS", "\"optiprism_ingester_track_time_seconds\""),
    ("common::types::METRIC_INGESTER_IDENTIFIED_TOTAL", "\"optiprism_ingester_identified_total\""),
    ("common::types::METRIC_INGESTER_IDENTIFY_TIME_SECONDS", "\"optiprism_ingester_identify_time_seconds\""),
    ("common::types::METRIC_QUERY_QUERIES_TOTAL", "\"optiprism_query_queries_total\""),
    ("common::types::METRIC_QUERY_EXECUTION_TIME_SECONDS", "\"optiprism_query_execution_time_seconds\""),
    ("common::types::METRIC_HTTP_REQUEST_TIME_SECONDS", "\"optiprism_http_request_time_seconds\""),
    ("common::types::METRIC_HTTP_REQUESTS_TOTAL", "\"optiprism_http_requests_total\""),
    ("common::types::METRIC_BACKUPS_TOTAL", "\"optiprism_query_backups_total\""),
    ("common::types::METRIC_BACKUP_TIME_SECONDS", "\"optiprism_backup_time_seconds\""),
    ("common::GROUPS_COUNT", "5"),
    ("common::GROUP_USER_ID", "0"),
    ("common::GROUP_USER", "\"user\""),
    ("common::ADMIN_ID", "1"),
    ("common::DATA_PATH_METADATA", "\"data/md\""),
    ("common::DATA_PATH_STORAGE", "\"data/storage\""),
    ("common::DATA_PATH_BACKUP_TMP", "\"data/backup_tmp\""),
    ("common::DATA_PATH_BACKUPS", "\"data/backups\""),
    ("common::DATA_PATH_RECOVERS", "\"data/recovers\""),
];
