P='src/platform/src/'
H=P+'http/'
# keeps
keep('kr1', H+'reports.rs', '''    Path((project_id, report_id)): Path<(u64, u64)>,
) -> Result<Json<Report>> {
    Ok(Json(provider.get_by_id(ctx, project_id, report_id).await?))''','''    Path(ids): Path<(u64, u64)>,
) -> Result<Json<Report>> {
    let (project_id, report_id) = ids;
    let report = provider.get_by_id(ctx, project_id, report_id).await?;
    Ok(Json(report))''')
keep('kr12', H+'properties.rs', '''    Ok(Json(
        provider.group(group_id)?
            .delete(ctx, project_id, prop_id)
            .await?,
    ))''', '''    let Some(props) = provider.groups.get(group_id) else {
        return Err(crate::PlatformError::NotFound("group".to_string()));
    };
    Ok(Json(props.delete(ctx, project_id, prop_id).await?))''')
keep('kr2', H+'groups.rs', '''    router.nest(
        "/api/v1/projects/:project_id/groups",
        Router::new().route("/", routing::post(create).get(list)),
    )''', '''    let groups = Router::new()
        .route("/", routing::get(list))
        .route("/", routing::post(create));
    router.nest("/api/v1/projects/:project/groups", groups)''')
keep('kr3', H+'settings.rs', 'router.route("/api/v1/admin/settings", routing::put(update).get(get))', 'router.nest("/api/v1/admin", Router::new().route("/settings", routing::get(get).put(update)))')
keep('kr4', P+'reports.rs', '''        let md_req = metadata::reports::UpdateReportRequest {
            updated_by: ctx.account_id,
            tags: req.tags,
            name: req.name,
            description: req.description,
            typ: req.typ.into(),
            query: req.query.into(),
        };

        let report = self.prov.update(project_id, report_id, md_req)?;

        Ok(report.into())''', '''        let author = ctx.account_id;
        let UpdateReportRequest {
            tags,
            name,
            description,
            typ,
            query,
        } = req;
        let report = self
            .prov
            .update(project_id, report_id, metadata::reports::UpdateReportRequest {
                query: query.into(),
                typ: typ.into(),
                description,
                name,
                tags,
                updated_by: author,
            })?;

        Ok(report.into())''')
keep('kr5', P+'organizations.rs', '''        let org = self.md.organizations.update(org_id, md_req)?;

        Ok(org.into())''', '''        self.md
            .organizations
            .update(org_id, md_req)
            .map(|org| org.into())
            .map_err(|e| e.into())''')
keep('kr6', P+'settings.rs', '''        if let Some(v) = req.backup_enabled {
            settings.backup_enabled = v;
        }
''', '''        settings.backup_enabled = req.backup_enabled.unwrap_or(settings.backup_enabled);
''')
keep('kr7', H+'custom_events.rs', '''    Ok(Json(provider.delete(ctx, project_id, event_id).await?))''', '''    let event = provider.delete(ctx, project_id, event_id).await?;
    let response = Json(event);
    Ok(response)''')
keep('kr8', H+'properties.rs', '''pub fn attach_group_routes(router: Router) -> Router {
    router.nest(
        "/api/v1/projects/:project_id/schema/group-properties/:group_id",
        Router::new()''', '''const GROUP_PROPERTIES: &str = "/api/v1/projects/:project_id/schema/group-properties/:group_id";

pub fn attach_group_routes(router: Router) -> Router {
    router.nest(
        GROUP_PROPERTIES,
        Router::new()''')
keep('kr9', P+'events.rs', '''        let md_req = metadata::events::UpdateEventRequest {
            updated_by: ctx.account_id,
            tags: req.tags,
            display_name: req.display_name,
            description: req.description,
            status: req.status.into(),
            ..Default::default()
        };
''', '''        let mut md_req = metadata::events::UpdateEventRequest {
            updated_by: ctx.account_id,
            ..Default::default()
        };
        md_req.tags = req.tags;
        md_req.display_name = req.display_name;
        md_req.description = req.description;
        md_req.status = req.status.into();
''')
keep('kr10', P+'events.rs', '''        let event = self.prov.update(project_id, event_id, md_req)?;

        Ok(event.into())''', '''        match self.prov.update(project_id, event_id, md_req) {
            Ok(event) => Ok(event.into()),
            Err(err) => Err(err.into()),
        }''')
keep('kr11', H+'mod.rs', '''    router = dashboards::attach_routes(router);
    router = reports::attach_routes(router);
    router = bookmarks::attach_routes(router);
''', '''    router = bookmarks::attach_routes(reports::attach_routes(dashboards::attach_routes(router)));
''')
# breaks
brk('br1', 'C16', H+'reports.rs', 'routing::get(get_by_id).delete(delete).put(update)', 'routing::get(get_by_id).put(update)')
brk('br2', 'C16', H+'events.rs', '''            .attach_property(ctx, project_id, event_id, prop_id)''', '''            .attach_property(ctx, project_id, prop_id, event_id)''')
brk('br3', 'C16', H+'properties.rs', 'Path((project_id, group_id, prop_name)): Path<(u64, usize, String)>', 'Path((group_id, project_id, prop_name)): Path<(usize, u64, String)>')
brk('br4', 'C16', H+'properties.rs', '''                routing::get(get_event_by_id)
                    .delete(delete_event)
                    .put(update_event),''', '''                routing::get(get_event_by_id)
                    .put(delete_event)
                    .delete(update_event),''') if 0 else None
brk('br5', 'C16', H+'mod.rs', '''        .layer(Extension(platform.bookmarks.clone()))
''', '')
brk('br6', 'C16', H+'mod.rs', '''    router = group_records::attach_routes(router);
    let serve_dir''', '''    let serve_dir''', H+'mod.rs', '''        .layer(Extension(platform.group_records.clone()));

''','''        .layer(Extension(platform.group_records.clone()));
    router = group_records::attach_routes(router);

''')
brk('br7', 'C16', P+'dashboards.rs', '''                    description: request.description,
''', '''                    description: None,
''')
brk('br8', 'C16', P+'reports.rs', '''            name: req.name,
            description: req.description,
            typ: req.typ.into(),''', '''            name: req.name.clone(),
            description: req.name.map(|v| Some(v)),
            typ: req.typ.into(),''')
brk('br9', 'C16', P+'projects.rs', '''            updated_by: ctx.account_id,
''', '''            updated_by: ctx.organization_id,
''')
brk('br10', 'C16', P+'custom_events.rs', '''        if let OptionalProperty::Some(events) = req.events {
            md_req.events.insert(
                events
                    .iter()
                    .map(|e| e.to_owned().into())
                    .collect::<Vec<_>>(),
            );
        }
''', '')
brk('br11', 'C16', P+'settings.rs', '''            settings.backup_provider_s3_region = v;''', '''            settings.backup_provider_s3_path = v;''')
brk('br12', 'C16', P+'settings.rs', '''                    settings.backup_provider = metadata::settings::BackupProvider::GCP''', '''                    settings.backup_provider = metadata::settings::BackupProvider::S3''')
brk('br13', 'C16', P+'settings.rs', '''                metadata::settings::BackupScheduleInterval::Weekly => {
                    BackupScheduleInterval::Weekly''', '''                metadata::settings::BackupScheduleInterval::Weekly => {
                    BackupScheduleInterval::Daily''')
brk('br14', 'C16', P+'properties.rs', '''        Ok(self.props.delete(project_id, id)?.into())''', '''        Ok(self.props.get_by_id(project_id, id)?.into())''')
brk('br15', 'C16', P+'accounts.rs', '''            force_update_password: req.force_update_password,
            role: req.role,
            organizations: req.organizations,
            projects: req.projects,
            teams: req.teams,
            ..Default''', '''            role: req.role,
            organizations: req.organizations,
            projects: req.projects,
            teams: req.teams,
            ..Default''')
brk('br16', 'C16', P+'http/events.rs', '    Path((project_id, event_name)): Path<(u64, String)>,', '''    Path(project_id): Path<u64>,
    Path(event_name): Path<String>,''')
brk('br17', 'C16', P+'http/dashboards.rs', '.route("/:dashboard_id"', '.route("/:dashboard_id/view"') if 0 else None
brk('br18', 'C16', P+'http/custom_events.rs', 'Router::new()\n            .route("/", routing::post(create)', 'router.clone()\n            .route("/", routing::post(create)')
brk('br19', 'C16', P+'bookmarks.rs', '.get_by_id(project_id, ctx.account_id, id)', '.get_by_id(project_id, ctx.organization_id, id)')
brk('br20', 'C16', P+'projects.rs', '''            session_duration_seconds: request
                .session_duration_seconds
                .unwrap_or(self''', '''            session_duration_seconds: None
                .unwrap_or(self''')
