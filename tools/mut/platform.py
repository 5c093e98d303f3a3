P = 'src/platform/src/'
CHK = '''        ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::%s,
        )?;
'''
keep('kp1', P+'reports.rs', CHK % 'ManageReports' + '''        let report = self.prov''', '''        self.require(&ctx, project_id, ProjectPermission::ManageReports)?;
        let report = self.prov''') if 0 else None
keep('kp2', P+'organizations.rs', '''        ctx.check_permission(Permission::ManageOrganizations)?;

        Ok(self.md.organizations.delete(org_id)?.into())''', '''        match ctx.check_permission(Permission::ManageOrganizations) {
            Ok(()) => {}
            Err(err) => return Err(err),
        }
        let deleted = self.md.organizations.delete(org_id)?;
        Ok(deleted.into())''')
keep('kp3', P+'organizations.rs', '''        let list = resp
            .data
            .into_iter()
            .filter(|o| {
                ctx.check_organization_permission(o.id, OrganizationPermission::ViewOrganization)
                    .is_ok()
            })
            .collect::<Vec<_>>();
''', '''        let mut list = Vec::new();
        for o in resp.data {
            if ctx
                .check_organization_permission(o.id, OrganizationPermission::ViewOrganization)
                .is_ok()
            {
                list.push(o);
            }
        }
''')
keep('kp4', P+'bookmarks.rs', '''    pub async fn get(&self, ctx: Context, project_id: u64, id: &str) -> Result<Bookmark> {
        ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::ExploreReports,
        )?;
''', '''    fn require(&self, ctx: &Context, id: u64, p: ProjectPermission) -> Result<()> {
        ctx.check_project_permission(ctx.organization_id, id, p)
    }

    pub async fn get(&self, ctx: Context, project_id: u64, id: &str) -> Result<Bookmark> {
        self.require(&ctx, project_id, ProjectPermission::ExploreReports)?;
''')
keep('kp5', P+'http/events.rs', '''    Ok(Json(
        provider.update(ctx, project_id, event_id, request).await?,
    ))
}

async fn delete(''', '''    let event = provider.update(ctx, project_id, event_id, request).await?;
    Ok(Json(event))
}

async fn delete(''')
keep('kp6', P+'context.rs', '''        let acc = md_acc_prov.get_by_id(claims.account_id)?;
''', '''        let account_id = claims.account_id;
        let acc = md_acc_prov.get_by_id(account_id)?;
''')
keep('kp7', P+'projects.rs', '''        let list = list
            .into_iter()
            .filter(|p| {
                ctx.check_project_permission(
                    ctx.organization_id,
                    p.id,
                    ProjectPermission::ViewProject,
                )
                .is_ok()
            })
            .collect::<Vec<_>>();
''', '''        let mut list = list;
        list.retain(|p| {
            let allowed = ctx.check_project_permission(
                ctx.organization_id,
                p.id,
                ProjectPermission::ViewProject,
            );
            allowed.is_ok()
        });
''')
# --- C14
brk('bp1', 'C14', P+'events.rs', 'ProjectPermission::DeleteSchema', 'ProjectPermission::ManageSchema')
brk('bp2', 'C14', P+'organizations.rs', '''        ctx.check_permission(Permission::ManageOrganizations)?;

        Ok(self.md''', '''        Ok(self.md''')
brk('bp3', 'C14', P+'bookmarks.rs', '''    pub async fn get(&self, ctx: Context, project_id: u64, id: &str) -> Result<Bookmark> {
        ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::ExploreReports,
        )?;
''', '''    pub async fn get(&self, ctx: Context, project_id: u64, id: &str) -> Result<Bookmark> {
        let _ = ctx.check_project_permission(
            ctx.organization_id,
            project_id,
            ProjectPermission::ExploreReports,
        );
''')
brk('bp4', 'C14', P+'projects.rs', '''            .filter(|p| p.organization_id == ctx.organization_id)
''', '')
brk('bp5', 'C14', P+'organizations.rs', 'ctx.check_organization_permission(o.id, OrganizationPermission', 'ctx.check_organization_permission(ctx.organization_id, OrganizationPermission')
brk('bp6', 'C14', P+'organizations.rs', 'ctx.check_organization_permission(org_id, OrganizationPermission::ManageOrganization)', 'ctx.check_organization_permission(ctx.organization_id, OrganizationPermission::ManageOrganization)')
brk('bp7', 'C14', P+'context.rs', 'organization_id: claims.organization_id', 'organization_id: acc.id')
brk('bp8', 'C14', P+'context.rs', 'settings.load()?.auth_access_token', 'settings.load()?.auth_refresh_token')
brk('bp9', 'C14', P+'settings.rs', '''req: Settings) -> Result<Settings> {
        ctx.check_permission(Permission::ManageServer)?;
''', '''req: Settings) -> Result<Settings> {
        if ctx.account_id != 1 {
            ctx.check_permission(Permission::ManageServer)?;
        }
''')
brk('bp10', 'C14', P+'context.rs', '                OrganizationRole::Member => {}', '                OrganizationRole::Member => return Ok(()),')
brk('bp11', 'C14', P+'group_records.rs', '''        };
        let ctx = query::Context {
            project_id,''', '''        };
        let ctx = query::Context {
            project_id: ctx.organization_id,''')
brk('bp12', 'C14', P+'dashboards.rs', 'self.prov.delete(project_id, id)', 'self.prov.delete(id, project_id)')
brk('bp13', 'C14', P+'backups.rs', '''        ctx.check_permission(Permission::ManageServer)?;

        let settings''', '''        let settings''')
AU = P+'auth/provider.rs'
keep('kp8', AU, '''        if let Err(err) = verify_password(
            &req.password,
            PasswordHash::new(account.password_hash.as_str())?,
        ) {
            return Err(PlatformError::invalid_field("password", err.to_string()));
        }
''', '''        let hash = PasswordHash::new(account.password_hash.as_str())?;
        match verify_password(&req.password, hash) {
            Ok(()) => {}
            Err(err) => return Err(PlatformError::invalid_field("password", err.to_string())),
        }
''')
keep('kp9', AU, '''        let org_id = if let Some(org_id) = org_id {
            let org = self.md.organizations.get_by_id(org_id)?;
            if !org.is_member(account.id) {
                0
            } else {
                org.id
            }
        } else {
            // find first organization
            let orgs = self.md.organizations.list()?;
            let org = orgs.data.iter().find(|org| org.is_member(account.id));
            if let Some(org) = org { org.id } else { 0 }
        };
''', '''        let org_id = match org_id {
            Some(id) => {
                let org = self.md.organizations.get_by_id(id)?;
                if org.is_member(account.id) {
                    org.id
                } else {
                    0
                }
            }
            None => self
                .md
                .organizations
                .list()?
                .data
                .iter()
                .find(|org| org.is_member(account.id))
                .map(|org| org.id)
                .unwrap_or(0),
        };
''')
keep('kp10', P+'auth/token.rs', '''    let token = decode::<AccessClaims>(
        value,
        &DecodingKey::from_secret(token_key.as_ref()),
        &Validation::new(Algorithm::HS512),
    )?;

    Ok(token.claims)
}
''', '''    let key = DecodingKey::from_secret(token_key.as_ref());
    let validation = Validation::new(Algorithm::HS512);
    decode::<AccessClaims>(value, &key, &validation)
        .map(|token| token.claims)
        .map_err(|err| err.into())
}
''')
keep('kp11', P+'auth/password.rs', '''    match zxcvbn::zxcvbn(password, user_inputs) {
        Ok(ent) if ent.score() < 3 => {
            return Err(PlatformError::invalid_field(
                "password",
                "password is too simple",
            ));
        }
        Err(err) => return Err(PlatformError::invalid_field("password", err.to_string())),
        _ => {}
    }

    Ok(())
''', '''    let ent = match zxcvbn::zxcvbn(password, user_inputs) {
        Ok(ent) => ent,
        Err(err) => return Err(PlatformError::invalid_field("password", err.to_string())),
    };
    if ent.score() >= 3 {
        Ok(())
    } else {
        Err(PlatformError::invalid_field(
            "password",
            "password is too simple",
        ))
    }
''')
keep('kp12', 'src/cmd/src/lib.rs', '''    if settings.auth_access_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_access_token = key;
    }
    if settings.auth_refresh_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_refresh_token = key;
    }
''', '''    fill(&mut settings.auth_access_token, &mut rng);
    fill(&mut settings.auth_refresh_token, &mut rng);
''', 'src/cmd/src/lib.rs', 'fn init_settings(', '''fn fill(v: &mut String, rng: &mut StdRng) {
    if v.is_empty() {
        *v = hex::encode(get_random_key64(rng));
    }
}

fn init_settings(''')
brk('bq1', 'C15', AU, '''        verify_password(
            req.password,
            PasswordHash::new(account.password_hash.as_str())?,
        )
        .map_err(|_err| AuthError::InvalidCredentials)?;
''', '''        if !account.force_update_password {
            verify_password(
                req.password,
                PasswordHash::new(account.password_hash.as_str())?,
            )
            .map_err(|_err| AuthError::InvalidCredentials)?;
        }
''')
brk('bq2', 'C15', AU, '''            if !org.is_member(account.id) {
                0
            } else {
                org.id
            }''', '''            if org.is_member(account.id) {
                0
            } else {
                org.id
            }''')
brk('bq3', 'C15', AU, 'self.make_tokens(refresh_claims.account_id, ctx', 'self.make_tokens(ctx.account_id, ctx')
brk('bq4', 'C15', AU, '''                settings.auth_refresh_token,
            )''', '''                settings.auth_access_token,
            )''')
brk('bq5', 'C15', AU, '''        if !account.force_update_email {
            return Err(PlatformError::Forbidden("forbidden".to_string()));
        }
''', '')
brk('bq6', 'C15', P+'auth/token.rs', '''    let token = decode(
        value,
        &DecodingKey::from_secret(token_key.as_ref()),
        &Validation::new(Algorithm::HS512),
    )?;
''', '''    let mut validation = Validation::new(Algorithm::HS512);
    validation.validate_exp = false;
    let token = decode(
        value,
        &DecodingKey::from_secret(token_key.as_ref()),
        &validation,
    )?;
''')
brk('bq7', 'C15', P+'settings.rs', 'backup_provider_s3_secret_key: None,', 'backup_provider_s3_secret_key: Some(settings.backup_provider_s3_secret_key),')
brk('bq8', 'C15', P+'auth/password.rs', 'Ok(ent) if ent.score() < 3 =>', 'Ok(ent) if ent.score() < 3 && user_inputs.is_empty() =>')
brk('bq9', 'C15', P+'accounts.rs', 'password_hash: make_password_hash(req.password.as_str())?,', 'password_hash: req.password,')
brk('bq10', 'C15', AU, '''            force_update_password: OptionalProperty::Some(false),
''', '''            force_update_password: OptionalProperty::None,
''')
brk('bq11', 'C15', AU, 'exp_' , '') if 0 else None
brk('bq12', 'C15', P+'auth/token.rs', '''        RefreshClaims {
            exp: (Utc::now() + expires).timestamp(),''', '''        RefreshClaims {
            exp: (Utc::now() + expires).timestamp_millis(),''')
brk('bq13', 'C15', 'src/cmd/src/lib.rs', '''    if settings.auth_refresh_token.is_empty() {
        let key = hex::encode(get_random_key64(&mut rng));
        settings.auth_refresh_token = key;''', '''    if settings.auth_refresh_token.is_empty() {
        let key = settings.auth_access_token.clone();
        settings.auth_refresh_token = key;''')
brk('bq14', 'C15', AU, '''            role: None,
            organizations: None,''', '''            role: Some(Role::Admin),
            organizations: None,''')
brk('bq15', 'C15', AU, '''        check_password_complexity(&req.new_password, &[])?;
''', '''        check_password_complexity(&req.password, &[])?;
''')
brk('bq16', 'C15', P+'accounts.rs', '''pub struct Account {
    pub id: u64,''', '''pub struct Account {
    pub password_hash: String,
    pub id: u64,''')
