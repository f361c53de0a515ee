def V(*a): return ("C22","V")+a
def Q(*a): return ("C22","Q")+a
I="imapinterface.c"; L="imap.c"
CASES=[
 # listing
 V(I,'imap_select(imapc, folder, -1, 0, &exists)','imap_select(imapc, folder, -1, 1, &exists)'),
 V(I,'if (exists < 1) return;','if (exists < 2) return;'),
 V(I,'TLTYPE_ATOM, "1:*", (size_t)-1,\n		TLTYPE_ATOM, "FLAGS"','TLTYPE_ATOM, "2:*", (size_t)-1,\n		TLTYPE_ATOM, "FLAGS"'),
 V(I,'TLTYPE_ATOM, "UID", (size_t)-1,\n		TLTYPE_ATOM, "FETCH", (size_t)-1,\n		TLTYPE_ATOM, "1:*"','TLTYPE_ATOM, "FETCH", (size_t)-1,\n		TLTYPE_ATOM, "1:*"'),
 V(I,'		uid = NULL;\n		deleted = 0;','		uid = NULL;'),
 V(I,'		uid = NULL;\n		deleted = 0;','		deleted = 0;'),
 V(I,'"\\\\Deleted")) {','"\\\\Seen")) {'),
 V(I,'		if (deleted) continue;','		if (deleted) break;'),
 V(I,'		if (!uid) continue;','		if (!uid) break;'),
 V(I,'if (0 != strcmp(l2->leaf, "FETCH")) continue;\n		l2 = l2->next;\n		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;\n		uid','if (0 != strcmp(l2->leaf, "FETCH")) break;\n		l2 = l2->next;\n		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;\n		uid'),
 V(I,'if (0 == strcmp(l2->leaf, "UID")) {\n				l2 = l2->next;\n				if (l2->type != TLTYPE_ATOM) continue;\n				uid = l2->leaf;','if (0 == strcmp(l2->leaf, "UID")) {\n				l2 = l2->next;\n				if (l2->type != TLTYPE_ATOM) continue;\n				uid = l2->leaf; break;'),
 V(I,'if (0 == strcmp(l2->leaf, "UID")) {\n				l2 = l2->next;\n				if (l2->type != TLTYPE_ATOM) continue;\n				uid','if (0 == strcmp(l2->leaf, "UIDX")) {\n				l2 = l2->next;\n				if (l2->type != TLTYPE_ATOM) continue;\n				uid'),
 V(I,'for (l3 = l2->first; l3; l3 = l3->next) {','for (l3 = l2->first; l3 && l3->next; l3 = l3->next) {'),
 V(I,'"%s:%s:%s", uidvalidity, uid, folder','"%s:%s:%s", uid, uidvalidity, folder'),
 V(I,'"%s:%s:%s", uidvalidity, uid, folder','"%s:%s:%s", uidvalidity, folder, uid'),
 V(I,'.type = MTY_IMAP','.type = MTY_FILE'),
 V(I,'	++arr->n;','	arr->n += 2;'),
 V(I,'for (i = 0; i < n_folders; i++) {','for (i = 1; i < n_folders; i++) {'),
 V(I,'for (i = 0; i < n_folders; i++) {','for (i = 0; i < n_folders-1; i++) {'),
 V(I,'if (!is_globber_array_match(omit_globs, folderlist[i]))','if (is_globber_array_match(omit_globs, folderlist[i]))'),
 V(I,'if (!is_globber_array_match(omit_globs, folderlist[i]))','if (!is_globber_array_match(omit_globs, folderlist[i])) break; else'),
 V(I,'if (!is_globber_array_match(omit_globs, folderlist[i])) {','{'),
 V(I,'for (l = result->first; l != result->last; l = l->next) {\n		l2 = l->first;','for (l = result->first->next; l != result->last; l = l->next) {\n		l2 = l->first;'),
 V(I,'if (arr->n == arr->max) {\n		arr->max += 1024;','if (arr->n == arr->max) {\n		arr->max += 1024; arr->n = 0;'),
 # fetch
 V(I,'actual_uidvalidity = imap_select(imapc, folder, -1, 0, NULL);\n	if (!actual_uidvalidity) return 0;','actual_uidvalidity = imap_select(imapc, folder, -1, 1, NULL);\n	if (!actual_uidvalidity) return 0;'),
 V(I,'(strlen(actual_uidvalidity) != uidvalidity_len) ||\n		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf','(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf'),
 V(I,'(strlen(actual_uidvalidity) != uidvalidity_len) ||\n		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf','(strlen(actual_uidvalidity) != uidvalidity_len)\n	) {\n		fprintf'),
 V(I,'(strlen(actual_uidvalidity) != uidvalidity_len) ||\n		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf','(strlen(actual_uidvalidity) != uidvalidity_len) &&\n		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf'),
 V(I,'(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf','(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len-1))\n	) {\n		fprintf'),
 V(I,'because UIDVALIDITY changed\\n", pseudopath);\n		return 0;','because UIDVALIDITY changed\\n", pseudopath);'),
 V(I,'"BODY.PEEK[]"','"BODY[]"'),
 V(I,'TLTYPE_ATOM, uid, uid_len,\n		TLTYPE_ATOM, "BODY.PEEK[]"','TLTYPE_ATOM, uid, uid_len-1,\n		TLTYPE_ATOM, "BODY.PEEK[]"'),
 V(I,'TLTYPE_ATOM, "UID", (size_t)-1,\n		TLTYPE_ATOM, "FETCH", (size_t)-1,\n		TLTYPE_ATOM, uid','TLTYPE_ATOM, "FETCH", (size_t)-1,\n		TLTYPE_ATOM, uid'),
 V(I,'		if (got_uid_len != uid_len) continue;\n',''),
 V(I,'if (got_uid_len != uid_len) continue;','if (got_uid_len < uid_len) continue;'),
 V(I,'		if (0 != memcmp(got_uid, uid, got_uid_len)) continue;\n',''),
 V(I,'if (0 != memcmp(got_uid, uid, got_uid_len)) continue;','if (0 != memcmp(got_uid, uid, got_uid_len)) break;'),
 V(I,'callback(got_raw, raw_len, arg)','callback(got_raw, strlen(got_raw), arg)'),
 V(I,'callback(got_raw, raw_len, arg)','callback(got_raw, raw_len-1, arg)'),
 V(I,'raw_len = l2->leaflen;','raw_len = l2->leaflen - 2;'),
 V(I,'		got_uid = got_raw = NULL;\n','		got_uid = NULL;\n'),
 V(I,'uid_len = p-uid;\n	folder = p+1;\n\n	actual_uidvalidity = imap_select(imapc, folder, -1, 0, NULL);\n	if (!actual_uidvalidity) return 0;','uid_len = p-uid;\n	folder = p;\n\n	actual_uidvalidity = imap_select(imapc, folder, -1, 0, NULL);\n	if (!actual_uidvalidity) return 0;'),
 V(I,'p = strchr(uid, \':\');\n	if (!p) return 0;','p = strrchr(uid, \':\');\n	if (!p) return 0;'),
 V(I,'		callback(got_raw, raw_len, arg);\n		imap_ll_freeline(result);\n		return 1;','		imap_ll_freeline(result);\n		callback(got_raw, raw_len, arg);\n		return 1;'),
 V(I,'if (l2->type != TLTYPE_STRING) continue;\n','if (l2->type != TLTYPE_ATOM) continue;\n'),
 V(I,'	s.r = NULL;\n',''),
 V(I,'(char *)data /* XXX breaking "const" */, len, NULL','(char *)data /* XXX breaking "const" */, len+1, NULL'),
 # copy
 V(I,'actual_uidvalidity = imap_select(imapc, folder, -1, 0, NULL);\n	if (!actual_uidvalidity) return;','actual_uidvalidity = imap_select(imapc, to_folder, -1, 0, NULL);\n	if (!actual_uidvalidity) return;'),
 V(I,'(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		return;','0\n	) {\n		return;'),
 V(I,'TLTYPE_ATOM, "UID", (size_t)-1,\n		TLTYPE_ATOM, "COPY"','TLTYPE_ATOM, "COPY"'),
 V(I,'"COPY"','"MOVE"'),
 V(I,'TLTYPE_ATOM, uid, uid_len,\n		TLTYPE_STRING, to_folder','TLTYPE_ATOM, uid, (size_t)-1,\n		TLTYPE_STRING, to_folder'),
 V(I,'TLTYPE_STRING, to_folder, (size_t)-1','TLTYPE_STRING, folder, (size_t)-1'),
 V(I,'TLTYPE_STRING, to_folder, (size_t)-1','TLTYPE_ATOM, to_folder, (size_t)-1'),
 V(I,'		create_folder(imapc, to_folder);\n',''),
 V(I,'		create_folder(imapc, to_folder);\n		result = imap_ll_command(imapc, cmd, 10);','		create_folder(imapc, to_folder);\n		result = NULL;'),
 V(I,'create_folder(imapc, to_folder)','create_folder(imapc, folder)'),
 V(I,'	if (imap_ll_is_trycreate(result)) {\n		imap_ll_freeline(result);\n		create_folder(imapc, to_folder);','	imap_ll_freeline(cmd);\n	if (imap_ll_is_trycreate(result)) {\n		imap_ll_freeline(result);\n		create_folder(imapc, to_folder);','	imap_ll_freeline(cmd);\n\n	if (0 != strcmp(imap_ll_status(result), "OK")) {\n		fprintf(stderr, "unable to COPY','	if (0 != strcmp(imap_ll_status(result), "OK")) {\n		fprintf(stderr, "unable to COPY') if 0 else V(I,'"CREATE"','"SUBSCRIBE"'),
 # clear
 V(I,'if (!imap_select(imapc, folder, -1, 1, NULL)) return;','if (!imap_select(imapc, folder, -1, 0, NULL)) return;'),
 V(I,'if (!imap_select(imapc, folder, -1, 1, NULL)) return;','imap_select(imapc, folder, -1, 1, NULL);'),
 V(I,'TLTYPE_ATOM, "1:*", (size_t)-1,\n		TLTYPE_ATOM, "+FLAGS"','TLTYPE_ATOM, "1", (size_t)-1,\n		TLTYPE_ATOM, "+FLAGS"'),
 V(I,'"+FLAGS"','"-FLAGS"'),
 V(I,'TLTYPE_ATOM, "\\\\Deleted", (size_t)-1','TLTYPE_ATOM, "\\\\Seen", (size_t)-1'),
 V(I,'TLTYPE_ATOM, "EXPUNGE"','TLTYPE_ATOM, "NOOP"'),
 # append
 V(I,'	if (answered) {','	if (seen) {'),
 V(I,'"\\\\Answered"','"\\\\Draft"'),
 V(I,'	if (flagged) {\n		imap_ll_append(flags','	if (!flagged) {\n		imap_ll_append(flags'),
 V(I,'TLTYPE_STRING, data, len,','TLTYPE_STRING, data, (size_t)-1,'),
 V(I,'TLTYPE_STRING, data, len,','TLTYPE_STRING, data, len-1,'),
 V(I,'		TLTYPE_SUB, flags,\n',''),
 V(I,'		create_folder(imapc, folder);\n		result = imap_ll_command(imapc, cmd, 10);','		create_folder(imapc, folder);\n		result = imap_ll_command(imapc, flags, 10);'),
 V(I,'TLTYPE_STRING, folder, (size_t)-1,\n		TLTYPE_SUB','TLTYPE_STRING, "mfolder", (size_t)-1,\n		TLTYPE_SUB'),
 V(I,'	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);\n','	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);\n	imap_select(imapc, folder, -1, 1, NULL);\n	imap_clear_folder(imapc, folder);\n'),
 # select
 V(L,'((ll->selected_folder_namelen) == foldername_len) &&','((ll->selected_folder_namelen) >= foldername_len) &&'),
 V(L,'(0 == memcmp(ll->selected_folder, foldername, foldername_len)) &&','1 &&'),
 V(L,'((!need_write) || (ll->selected_folder_writable))','1'),
 V(L,'((!need_write) || (ll->selected_folder_writable))','((need_write) || (ll->selected_folder_writable))'),
 V(L,'need_write ? "SELECT" : "EXAMINE"','"SELECT"'),
 V(L,'need_write ? "SELECT" : "EXAMINE"','need_write ? "EXAMINE" : "SELECT"'),
 V(L,'	ll->selected_folder = NULL;\n	result','	result'),
 V(L,'if (0 != strcmp(l2->leaf, "UIDVALIDITY")) continue;','if (0 != strcmp(l2->leaf, "UIDNEXT")) continue;'),
 V(L,'if (0 != strcmp(l2->leaf, "UIDVALIDITY")) continue;',''),
 V(L,'if (0 != strcmp(l2->next->leaf, "EXISTS")) continue;','if (0 != strcmp(l2->next->leaf, "RECENT")) continue;'),
 V(L,'exists = atol(l2->leaf);','exists = atol(l2->leaf); break;'),
 V(L,'ll->selected_folder_uidvalidity = strdup(uidvalidity);','ll->selected_folder_uidvalidity = uidvalidity;'),
 V(L,'ll->selected_folder_writable = need_write;','ll->selected_folder_writable = 1;'),
 V(L,'ll->selected_folder_exists = exists;','ll->selected_folder_exists = 0;'),
 V(L,'if (exists_p) *exists_p = ll->selected_folder_exists;',''),
 V(L,'	if (exists_p) *exists_p = exists;\n',''),
 V(L,'ll->selected_folder_namelen = foldername_len;',''),
 V(L,'	if (!uidvalidity) {\n','	if (0) {\n'),
 V(L,'		imap_ll_pprint(result, 0, stderr);\n		imap_ll_freeline(result);\n		return NULL;\n	}\n\n	for (l','		imap_ll_pprint(result, 0, stderr);\n	}\n\n	for (l'),
 # login
 V(L,'case IMAP_LL_STARTTLS_FAILED_CERT:\n','break;\n			case IMAP_LL_STARTTLS_FAILED_CERT:\n') if 0 else V(L,'			case IMAP_LL_STARTTLS_FAILED_PROCEED:\n				break;\n			case IMAP_LL_STARTTLS_FAILED:\n','			case IMAP_LL_STARTTLS_FAILED_PROCEED:\n			case IMAP_LL_STARTTLS_FAILED:\n				break;\n'),
 V(L,'			case IMAP_LL_STARTTLS_FAILED_PROCEED:\n				break;\n			case IMAP_LL_STARTTLS_FAILED:\n			case IMAP_LL_STARTTLS_FAILED_CERT:\n','			case IMAP_LL_STARTTLS_FAILED_PROCEED:\n			case IMAP_LL_STARTTLS_FAILED_CERT:\n				break;\n			case IMAP_LL_STARTTLS_FAILED:\n'),
 V(L,'if (have_capability(caps, "STARTTLS"))','if (have_capability(caps, "STARTTLSX"))'),
 V(L,'if (have_capability(caps, "STARTTLS"))','if (!have_capability(caps, "STARTTLS"))'),
 V(L,'TLTYPE_STRING, username, username_len,\n		TLTYPE_STRING, password, password_len,','TLTYPE_STRING, password, password_len,\n		TLTYPE_STRING, username, username_len,'),
 V(L,'TLTYPE_STRING, password, password_len,','TLTYPE_ATOM, password, password_len,'),
 V(L,'if (0 == strcmp(status, "OK")) {','if (0 != strcmp(status, "NO")) {'),
 V(L,'	if (!need_capability(caps, "LITERAL+")) {\n		ret = imap_login_error;\n		goto exit;\n	}\n','') ,
 V(L,'				result = ask_for_capabilities(ll);\n				if (!(caps = find','				if (!(caps = find'),
 V(L,'	if ((!username) || (!password)) {','	if ((!username) && (!password)) {'),
 V(L,'((l->leaf) && (0 == strcmp(l->leaf, cap))) return 1;\n	}\n	return 0;','((l->leaf) && (0 == strcmp(l->leaf, cap))) return 1;\n	}\n	return 1;'),
 # starttls
 V(L,'SSL_get_verify_result(ssl)) != X509_V_OK','SSL_get_verify_result(ssl)) == X509_V_ERR_CERT_HAS_EXPIRED'),
 V(L,'	if (!(peer = SSL_get_peer_certificate(ssl))) {','	peer = SSL_get_peer_certificate(ssl); if (0) {'),
 V(L,'if (0 != strcasecmp(buf, servername)){','if (0 != strncasecmp(buf, servername, strlen(buf))){'),
 V(L,"if (buf[0] == '*') {","if (1) {"),
 V(L,'servername + (servernamelen-certnamelen))','servername + (servernamelen-certnamelen+1))'),
 V(L,'!= certificate common name \\"%s\\"\\n", buf2, buf);\n		goto certfail;','!= certificate common name \\"%s\\"\\n", buf2, buf);'),
 V(L,'		SSL_free(ssl);\n		return IMAP_LL_STARTTLS_FAILED_CERT;','		SSL_free(ssl);\n		return IMAP_LL_STARTTLS_FAILED_PROCEED;'),
 V(L,'	ll->ssl = ssl;\n	return IMAP_LL_STARTTLS_SUCCESS;','	return IMAP_LL_STARTTLS_SUCCESS;'),
 V(L,'			fprintf(stderr, "STARTTLS: %s\\n", buf);\n			SSL_free(ssl);\n			return IMAP_LL_STARTTLS_FAILED;','			fprintf(stderr, "STARTTLS: %s\\n", buf);\n			SSL_free(ssl);\n			return IMAP_LL_STARTTLS_FAILED_PROCEED;'),
 V(I,'SSL_CTX_set_verify(sslctx, SSL_VERIFY_PEER, NULL);','SSL_CTX_set_verify(sslctx, SSL_VERIFY_NONE, NULL);'),
 V(I,'	SSL_CTX_load_verify_locations(sslctx, NULL, "/etc/ssl/certs");\n',''),
 # start
 V(I,'		case imap_login_error:\n		case imap_login_denied:\n			return NULL;','		case imap_login_denied:\n			return NULL;\n		case imap_login_error:\n'),
 V(I,'pipe ? imap_ll_pipe_connect(pipe) : imap_ll_connect(server, "143")','server ? imap_ll_connect(server, "143") : imap_ll_pipe_connect(pipe)') ,
 V(I,'imapc, username, -1, password, -1','imapc, password, -1, username, -1'),
 # lowlevel
 V(L,'if (cur->type == TLTYPE_TAGGED) {','if (cur->type != TLTYPE_UNTAGGED) {') if 0 else V(L,'if (cur->type == TLTYPE_TAGGED) {','if (cur->type == TLTYPE_UNTAGGED) {'),
 V(L,'			result->last->next = cur;\n','			result->first = cur;\n'),
 V(L,"*(cmdend++) = 13;\n","*(cmdend++) = 32;\n"),
 V(L,'(t->leaf[i] == 34) ||','0 ||'),
 V(L,'(t->leaf[i] < 32) ||','(t->leaf[i] < 10) ||'),
 V(L,'for (i = 0; i < t->leaflen; i++) {','for (i = 0; i < t->leaflen && t->leaf[i]; i++) {') if 0 else V(L,'for (i = 0; i < t->leaflen; i++) {','for (i = 1; i < t->leaflen; i++) {'),
 V(L,'"{%d+}\\015\\012", (int)(t->leaflen)','"{%d+}\\015\\012", (int)(t->leaflen)+1'),
 V(L,'"{%d+}\\015\\012"','"{%d}\\015\\012"'),
 V(L,"++(ll->current_tag_number)","(ll->current_tag_number)"),
 V(L,'			p += len;\n','			p = cmdend;\n'),
 V(L,'				p += n;\n','				p += n; return 1;\n'),
 V(L,'	if (!t) return "BAD";	/* no response */\n',''),
 V(L,'t = t->last->first;\n	if (!t) return "BAD";','t = t->first->first;\n	if (!t) return "BAD";'),
 V(L,'(0 == strcmp(imap_ll_status(t), "NO")) &&','(0 == strcmp(imap_ll_status(t), "OK")) &&'),
 V(L,'->first->leaf, "TRYCREATE"))','->first->leaf, "ALERT"))'),
 V(L,'(0 == strcmp(l->first->leaf, "CAPABILITY"))\n		) return l->first->next;','(0 == strcmp(l->first->leaf, "CAPABILITY"))\n		) return l->first->next->next;'),
 V(L,'	for (l = l ? l->first : NULL; l;','	for (l = l->first; l;'),
 # quiet
 Q(I,'for (i = 0; i < n_folders; i++) {\n		if (!is_globber_array_match(omit_globs, folderlist[i])) {\n			scan_folder(imapc, folderlist[i], msgs);\n		}\n	}','i = 0;\n	while (i < n_folders) {\n		char *f = folderlist[i++];\n		if (is_globber_array_match(omit_globs, f)) continue;\n		scan_folder(imapc, f, msgs);\n	}'),
 Q(I,'		if (deleted) continue;\n		if (!uid) continue;\n		add_imap','		if (!deleted && uid) add_imap'),
 Q(I,'	if (exists < 1) return;','	if (exists <= 0) return;'),
 Q(I,'		if (got_uid_len != uid_len) continue;\n		if (0 != memcmp(got_uid, uid, got_uid_len)) continue;\n		callback(got_raw, raw_len, arg);\n		imap_ll_freeline(result);\n		return 1;','		if (got_uid_len == uid_len && !memcmp(uid, got_uid, uid_len)) {\n		callback(got_raw, raw_len, arg);\n		imap_ll_freeline(result);\n		return 1;\n		}'),
 Q(I,'static void\nscan_folder(','static int\nsplit_path(const char *pp, const char **uv, size_t *uvl, const char **uid, size_t *uidl, const char **folder)\n{\n	const char *p;\n	*uv = pp;\n	p = strchr(pp, \':\');\n	if (!p) return 0;\n	*uvl = p - pp;\n	*uid = p + 1;\n	p = strchr(p + 1, \':\');\n	if (!p) return 0;\n	*uidl = p - *uid;\n	*folder = p + 1;\n	return 1;\n}\n\nstatic void\nscan_folder(',
   I,"	/* first part is the uidvalidity */\n	uidvalidity = pseudopath;\n	p = strchr(pseudopath, ':');\n	if (!p) return 0;\n	uidvalidity_len = p-pseudopath;\n	uid = p+1;\n\n	/* second part is the uid */\n	p = strchr(uid, ':');\n	if (!p) return 0;\n	uid_len = p-uid;\n	folder = p+1;\n","	if (!split_path(pseudopath, &uidvalidity, &uidvalidity_len, &uid, &uid_len, &folder)) return 0;\n",
   I,'*uid, *folder, *p;\nsize_t uidvalidity_len;\n','*uid, *folder;\nsize_t uidvalidity_len;\n'),
 Q(I,'	if (\n		(strlen(actual_uidvalidity) != uidvalidity_len) ||\n		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))\n	) {\n		fprintf','	if (strncmp(uidvalidity, actual_uidvalidity, uidvalidity_len) || actual_uidvalidity[uidvalidity_len]) {\n		fprintf'),
 Q(I,'	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);\n	if (seen) {\n		imap_ll_append(flags, imap_ll_build(\n			TLTYPE_ATOM, "\\\\Seen", (size_t)-1, TLTYPE_END\n		));\n	}\n	if (answered) {\n		imap_ll_append(flags, imap_ll_build(\n			TLTYPE_ATOM, "\\\\Answered", (size_t)-1, TLTYPE_END\n		));\n	}\n','	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);\n	if (answered) add_flag(flags, "\\\\Answered");\n	if (seen) add_flag(flags, "\\\\Seen");\n',
   I,'void\nimap_append_new_message(','static void\nadd_flag(struct imap_ll_tokenlist *flags, const char *name)\n{\n	struct imap_ll_tokenlist *t = imap_ll_build(TLTYPE_ATOM, name, (size_t)-1, TLTYPE_END);\n	imap_ll_append(flags, t);\n}\n\nvoid\nimap_append_new_message('),
 Q(I,'	result = imap_ll_command(imapc, cmd, 10);\n\n	if (imap_ll_is_trycreate(result)) {\n		imap_ll_freeline(result);\n		create_folder(imapc, to_folder);\n		result = imap_ll_command(imapc, cmd, 10);\n	}\n	imap_ll_freeline(cmd);\n','	result = with_create(imapc, cmd, to_folder);\n	imap_ll_freeline(cmd);\n',
   I,'void\nimap_copy_message(','static struct imap_ll_tokenlist *\nwith_create(struct imap_ll *imapc, struct imap_ll_tokenlist *cmd, const char *folder)\n{\n	struct imap_ll_tokenlist *r = imap_ll_command(imapc, cmd, 10);\n	if (imap_ll_is_trycreate(r)) {\n		imap_ll_freeline(r);\n		create_folder(imapc, folder);\n		r = imap_ll_command(imapc, cmd, 10);\n	}\n	return r;\n}\n\nvoid\nimap_copy_message(',
   I,'	result = imap_ll_command(imapc, cmd, 10);\n\n	if (imap_ll_is_trycreate(result)) {\n		imap_ll_freeline(result);\n		create_folder(imapc, folder);\n		result = imap_ll_command(imapc, cmd, 10);\n	}\n	imap_ll_freeline(cmd);\n','	result = with_create(imapc, cmd, folder);\n	imap_ll_freeline(cmd);\n'),
 Q(I,'	cmd = imap_ll_build(\n		TLTYPE_TAGGED,\n		TLTYPE_ATOM, "EXPUNGE", (size_t)-1,\n		TLTYPE_END\n	);\n	result = imap_ll_command(imapc, cmd, 10);\n	imap_ll_freeline(cmd);\n	imap_ll_freeline(result);\n}','	simple(imapc, "EXPUNGE");\n}',
   I,'void\nimap_clear_folder(','static void\nsimple(struct imap_ll *imapc, const char *word)\n{\n	struct imap_ll_tokenlist *cmd, *result;\n	cmd = imap_ll_build(TLTYPE_TAGGED, TLTYPE_ATOM, word, (size_t)-1, TLTYPE_END);\n	result = imap_ll_command(imapc, cmd, 10);\n	imap_ll_freeline(cmd);\n	imap_ll_freeline(result);\n}\n\nvoid\nimap_clear_folder('),
 Q(L,'	if (foldername_len == -1) foldername_len = strlen(foldername);\n	if (\n		(ll->selected_folder) &&\n		((ll->selected_folder_namelen) == foldername_len) &&\n		(0 == memcmp(ll->selected_folder, foldername, foldername_len)) &&\n		((!need_write) || (ll->selected_folder_writable))\n	) {','	if (foldername_len == -1) foldername_len = strlen(foldername);\n	if (is_selected(ll, foldername, foldername_len, need_write)) {',
   L,'const char *\nimap_select(','static int\nis_selected(struct imap_ll *ll, const char *name, size_t len, int w)\n{\n	if (!ll->selected_folder) return 0;\n	if (w && !ll->selected_folder_writable) return 0;\n	if (ll->selected_folder_namelen != len) return 0;\n	return !memcmp(name, ll->selected_folder, len);\n}\n\nconst char *\nimap_select('),
 Q(L,'		if (0 == strcmp(l2->leaf, "OK")) {\n			l2 = l2->next;\n			if (!l2) continue;','		if (!strcmp("OK", l2->leaf)) {\n			if (!(l2 = l2->next)) continue;'),
 Q(L,'	command_name = need_write ? "SELECT" : "EXAMINE";','	if (need_write)\n		command_name = "SELECT";\n	else\n		command_name = "EXAMINE";'),
 Q(L,'				(t->leaf[i] < 32) ||\n					(t->leaf[i] == 34) ||\n					(t->leaf[i] == 92) ||\n					(t->leaf[i] > 126)\n				) break;','				(t->leaf[i] == \'"\') ||\n					(t->leaf[i] == \'\\\\\') ||\n					(t->leaf[i] < \' \') ||\n					(t->leaf[i] >= 127)\n				) break;'),
 Q(L,'		if (result->first) {\n			result->last->next = cur;\n		} else {\n			result->first = cur;\n		}\n		result->last = cur;\n\n		if (cur->type == TLTYPE_TAGGED) {\n			cur->next = NULL;\n			return result;\n		}','		if (!result->first) {\n			result->first = cur;\n		} else {\n			result->last->next = cur;\n		}\n		result->last = cur;\n\n		if (cur->type != TLTYPE_TAGGED) continue;\n		return result;'),
 Q(L,'	if (!(caps = find_capability_list_from_greeting(ll, result, &freeme))) {\n		imap_ll_freeline(result);\n		if (freeme) imap_ll_freeline(freeme);\n		return imap_login_error;\n	}\n\n#ifdef','	caps = find_capability_list_from_greeting(ll, result, &freeme);\n	if (caps == NULL) {\n		imap_ll_freeline(freeme);\n		imap_ll_freeline(result);\n		return imap_login_error;\n	}\n\n#ifdef'),
 Q(L,'	if (0 == strcmp(status, "OK")) {\n		if (!(caps','	if (!strcmp("OK", status)) {\n		if (!(caps'),
 Q(L,'	if ((vr = SSL_get_verify_result(ssl)) != X509_V_OK) {','	vr = SSL_get_verify_result(ssl);\n	if (vr) {'),
 Q(L,'	if (!servername) goto certok; /* caller does not want us to check */\n	if (0 != strcasecmp(buf, servername)){','	if (servername && strcasecmp(servername, buf)) {'),
 Q(I,'	switch (imap_login(\n		imapc, username, -1, password, -1\n#ifdef USE_OPENSSL\n		, sslctx, server\n#endif\n	)) {\n		case imap_login_error:\n		case imap_login_denied:\n			return NULL;\n		case imap_login_ok:\n			break;\n	}\n\n	return imapc;','	return imap_login(\n		imapc, username, -1, password, -1\n#ifdef USE_OPENSSL\n		, sslctx, server\n#endif\n	) == imap_login_ok ? imapc : NULL;'),
]
