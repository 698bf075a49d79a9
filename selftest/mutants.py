MUTANTS = []
def bad(name, props, *edits): MUTANTS.append((name, props.split(), edits))
def good(name, *edits): MUTANTS.append((name, [], edits))

EX = 'database/dservice/examiner.go'
MYX = 'database/mysql/mservice/index_examiner.go'
PGX = 'database/postgres/pservice/index_examiner.go'
HSX = 'database/hasura/hservice/index_examiner.go'
MYC = 'cmd/db/suggest/mysql.go'
PGC = 'cmd/db/suggest/postgres.go'
HSC = 'cmd/db/suggest/hasura/postgres.go'
IT = 'database/dmodel/index_target.go'

# ---- P01
bad('p01-drop-only-ok', 'P01', (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
''', '''	defer func() {
		if err != nil {
			return
		}
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
'''))
bad('p01-inline-drop', 'P01', (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()

	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
''', '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
	log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
	err = iee.ie.DropIndex(idxName, it)
	if err != nil {
		return nil, errors.Wrap(err, "failed to drop index")
	}
'''))
good('p01-inline-both', (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()

	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
''', '''	millis, execErr := iee.execute()
	log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
	err = iee.ie.DropIndex(idxName, it)
	if execErr != nil {
		return nil, execErr
	}
	if err != nil {
		return nil, errors.Wrap(err, "failed to drop index")
	}
'''))
bad('p01-lose-drop-err', 'P01', (EX, '''		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
''', '''		if err2 := iee.ie.DropIndex(idxName, it); err2 != nil {
			log.Error().Err(errors.Wrap(err2, "failed to drop index")).Msg("")
		}
'''))
bad('p01-mysql-drop-guard', 'P01', (MYX, '''	sql := fmt.Sprintf("ALTER TABLE `%s` DROP INDEX `%s`", it.TableName, name)
''', '''	if len(it.Columns) > 5 {
		return nil
	}
	sql := fmt.Sprintf("ALTER TABLE `%s` DROP INDEX `%s`", it.TableName, name)
'''))
bad('p01-mysql-create-then-fail', 'P01', (MYX, '''	_, err := ie.db.Exec(sql)
	return err
}

func (ie *IndexExaminer) DropIndex''', '''	_, err := ie.db.Exec(sql)
	if err != nil {
		return err
	}
	_, err = ie.db.Exec(ie.query)
	return err
}

func (ie *IndexExaminer) DropIndex'''))
good('p01-extract-drop', (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()
''', '''	defer func() {
		err2 := iee.drop(idxName, it)
		if err == nil && err2 != nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()
'''), (EX, '''func (iee *IndexEfficiencyExaminer) execute()''', '''func (iee *IndexEfficiencyExaminer) drop(n string, t *dmodel.IndexTarget) error {
	log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", n))
	return iee.ie.DropIndex(n, t)
}

func (iee *IndexEfficiencyExaminer) execute()'''))
bad('p01-fatal', 'P01', (EX, '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
''','''	millis, err := iee.execute()
	if err != nil {
		log.Fatal().Err(err).Msg("failed")
	}
'''))
good('p01-extract-name', (EX, '''	idxName := fmt.Sprintf("%s_%s",
		id,
		lib.Join(it.Columns, "_", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
	)
	if len(idxName) > maxIdxNameLen {
		idxName = fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
	}
''','''	idxName := buildIndexName(id, it)
'''),(EX,'''func (iee *IndexEfficiencyExaminer) execute()''','''func buildIndexName(id string, it *dmodel.IndexTarget) string {
	names := make([]string, 0, len(it.Columns))
	for _, c := range it.Columns {
		names = append(names, c.SafeName())
	}
	idxName := id + "_" + strings.Join(names, "_")
	if len(idxName) <= maxIdxNameLen {
		return idxName
	}
	return fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
}

func (iee *IndexEfficiencyExaminer) execute()'''),(EX,'"strconv"\n','"strconv"\n	"strings"\n'))

# ---- P02
bad('p02-rename-twice', 'P02', (EX, '''	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))
	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, err
	}
''','''	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))
	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, err
	}
	if len(idxName) > 25 {
		idxName = idxName[:25]
	}
'''))
bad('p02-truncate-in-create', 'P02', (PGX, '''		name, it.TableName,
		lib''','''		name[:min(len(name), 20)], it.TableName,
		lib'''), (PGX, 'func (ie *IndexExaminer) Execute','''func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (ie *IndexExaminer) Execute'''))
bad('p02-first-col', 'P02', (MYX, 'lib.Join(it.Columns, ",",', 'lib.Join(it.Columns[:1], ",",'))
bad('p02-unique-cols', 'P02', (MYX, 'lib.Join(it.Columns, ",",', 'lib.Join(lo.Reverse(it.Columns), ",",'), (MYX,'	"time"\n','	"github.com/samber/lo"\n	"time"\n'))
bad('p02-unique', 'P02', (PGX, 'CREATE INDEX', 'CREATE UNIQUE INDEX'))
bad('p02-no-quote', 'P02', (HSX, '''return `"` + i.SafeName() + `"`''', '''return i.SafeName()'''))
good('p02-builder', (MYX, '''	sql := fmt.Sprintf(
		"ALTER TABLE `%s` ADD INDEX `%s` (%s)",
		it.TableName, name,
		lib.Join(it.Columns, ",", func(i *dmodel.IndexColumn) string { return "`" + i.SafeName() + "`" }),
	)
''', '''	var sb strings.Builder
	sb.WriteString("ALTER TABLE `" + it.TableName + "` ADD INDEX `" + name + "` (")
	for i, c := range it.Columns {
		if i > 0 {
			sb.WriteString(",")
		}
		sb.WriteString("`" + c.SafeName() + "`")
	}
	sb.WriteString(")")
	sql := sb.String()
'''), (MYX, '"github.com/mrasu/GravityR/lib"\n', '"strings"\n'))
good('p02-concat', (MYX, '''	sql := fmt.Sprintf(
		"ALTER TABLE `%s` ADD INDEX `%s` (%s)",
		it.TableName, name,
		lib.Join(it.Columns, ",", func(i *dmodel.IndexColumn) string { return "`" + i.SafeName() + "`" }),
	)
''', '''	cols := ""
	for i := 0; i < len(it.Columns); i++ {
		if i != 0 {
			cols += ","
		}
		cols += "`" + it.Columns[i].SafeName() + "`"
	}
	sql := "ALTER TABLE `" + it.TableName + "` ADD INDEX `" + name + "` (" + cols + ")"
'''), (MYX, '	"github.com/mrasu/GravityR/lib"\n', ''))
good('p02-map-join', (PGX, '''lib.Join(it.Columns, ",", func(i *dmodel.IndexColumn) string { return `"` + i.SafeName() + `"` })''', '''strings.Join(lo.Map(it.Columns, func(i *dmodel.IndexColumn, _ int) string { return fmt.Sprintf(`"%s"`, i.SafeName()) }), ",")'''),
 (PGX, '"github.com/mrasu/GravityR/lib"\n', '"github.com/samber/lo"\n	"strings"\n'))

# ---- P03
IT='database/dmodel/index_target.go'
IC='database/dmodel/index_column.go'
bad('p03-multiline', 'P03', (IT, r'`\A\w+\z`', r'`(?m)^\w+$`'))
bad('p03-unanchored', 'P03', (IT, r'`\A\w+\z`', r'`\A\w+`'))
bad('p03-no-table', 'P03', (IT, '''	if !wordOnlyReg.MatchString(it.TableName) {
		return false
	}
''',''))
bad('p03-first-col', 'P03', (IT, '''	for _, c := range it.Columns {
		if c.Name != c.SafeName() {
			return false
		}
	}

	return true
}

func (it *IndexTarget) HasSame''','''	for _, c := range it.Columns {
		return c.Name == c.SafeName()
	}

	return true
}

func (it *IndexTarget) HasSame'''))
bad('p03-nofilter', 'P03', (PGC, 'return it.IsSafe()', 'return len(it.Columns) > 0'))
bad('p03-nonascii', 'P03', (IC, r'`\W`', r'`[^\x00-\x7F]`'))
bad('p03-hasura-cat', 'P03', ('infra/hasura/column_info.go', '''	for _, t := range tableNames {
		if''','''	for i, t := range tableNames {
		if i > 0 && strings.HasPrefix(t, tableNames[0]) {
			continue
		}
		if'''))
bad('p03-text-col', 'P03', (IT, '''		ic, err := NewIndexColumn(c)
		if err != nil {
			return nil, err
		}
''','''		ic := &IndexColumn{Name: c}
'''))
good('p03-validate-helper', (IT, '''	if !wordOnlyReg.MatchString(tName) {
		return nil, errors.Errorf("Including non word character. %s", tName)
	}
''','''	if err := ensureWord(tName); err != nil {
		return nil, err
	}
'''), (IT, '''func (it *IndexTarget) ToViewModel''','''func ensureWord(s string) error {
	if wordOnlyReg.MatchString(s) {
		return nil
	}
	return errors.Errorf("Including non word character. %s", s)
}

func (it *IndexTarget) ToViewModel'''))
good('p03-manual-filter', (MYC, '''		targets = lo.Filter(possibleTargets, func(it *dmodel.IndexTarget, _ int) bool { return it.IsSafe() })
''','''		targets = nil
		for _, it := range possibleTargets {
			if !it.IsSafe() {
				continue
			}
			targets = append(targets, it)
		}
'''))
good('p03-issafe-rewrite', (IT, '''	if !wordOnlyReg.MatchString(it.TableName) {
		return false
	}

	for _, c := range it.Columns {
		if c.Name != c.SafeName() {
			return false
		}
	}

	return true
}

func (it *IndexTarget) HasSame''','''	safe := wordOnlyReg.MatchString(it.TableName)
	for i := 0; i < len(it.Columns); i++ {
		c := it.Columns[i]
		safe = safe && c.SafeName() == c.Name
	}

	return safe
}

func (it *IndexTarget) HasSame'''))

# ---- P04
bad('p04-targets-imply', 'P04', (MYC, 'if mr.runsExamination {', 'if mr.runsExamination || len(examinationIdxTargets) > 0 {'))
bad('p04-default', 'P04', (PGC, '"with-examine", false,', '"with-examine", true,'))
bad('p04-explain-first', 'P04', (MYC, '''	err = mservice.EnsureSupported(mr.query)
	if err != nil {
		return err
	}

	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
	if err != nil {
		return err
	}
''', '''	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
	if err != nil {
		return err
	}

	err = mservice.EnsureSupported(mr.query)
	if err != nil {
		return err
	}
'''))
bad('p04-multi', 'P04', ('database/postgres/pservice/parse.go', 'if len(stmts) > 1 {', 'if len(stmts) > 2 {'))
bad('p04-type', 'P04', ('database/postgres/pservice/parser/collect_table_names.go', '''	if _, ok := stmt.AST.(*tree.Select); !ok {
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
''', ''), ('database/postgres/pservice/parser/collect_stmt_scopes.go', '''	if _, ok := stmt.AST.(*tree.Select); !ok {
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
''', ''))
bad('p04-readonly', 'P04', ('infra/hasura/client.go', 'lib.Ptr(true)', 'lib.Ptr(false)'))
good('p04-early', (MYC, '''	var er *dmodel.ExaminationResult
	if mr.runsExamination {
		er, err = mr.examine(db, examinationIdxTargets, its)
		if err != nil {
			return err
		}
	}
''', '''	er, err := mr.examineIfRequested(db, examinationIdxTargets, its)
	if err != nil {
		return err
	}
'''), (MYC, '''func (mr *mysqlRunner) examine(db''', '''func (mr *mysqlRunner) examineIfRequested(db *mysql.DB, a, b []*dmodel.IndexTarget) (*dmodel.ExaminationResult, error) {
	if !mr.runsExamination {
		return nil, nil
	}
	return mr.examine(db, a, b)
}

func (mr *mysqlRunner) examine(db'''))
good('p04-ne1', ('database/postgres/pservice/parse.go', '''	if len(stmts) == 0 {
		return nil, errors.New("query has no statement")
	}
	if len(stmts) > 1 {
		return nil, errors.New("not supporting query having multiple statements")
	}
	return &stmts[0], nil''', '''	switch len(stmts) {
	case 1:
		return &stmts[0], nil
	case 0:
		return nil, errors.New("query has no statement")
	default:
		return nil, errors.New("not supporting query having multiple statements")
	}'''))
good('p04-switch', ('database/mysql/mservice/parser/collect_table_names.go', '''	if _, ok := rootNode.(*ast.SetOprStmt); ok {
		return nil, []error{lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")}
	}
	if _, ok := rootNode.(*ast.SelectStmt); !ok {
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
''', '''	switch rootNode.(type) {
	case *ast.SelectStmt:
	case *ast.SetOprStmt:
		return nil, []error{lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")}
	default:
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
'''), ('database/mysql/mservice/parser/collect_stmt_scopes.go', '''	if _, ok := rootNode.(*ast.SelectStmt); !ok {
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
''', ''))

# ---- P05
bad('p05-measure-create', 'P05', (EX, '''	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))
	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, err
	}
''', '''	before, err := iee.execute()
	if err != nil {
		return nil, err
	}
	log.Info().Msg(fmt.Sprintf("Creating index(%s)...", idxName))
	err = iee.ie.CreateIndex(idxName, it)
	if err != nil {
		return nil, err
	}
'''), (EX, 'NewExaminationIndexResult(it, millis)', 'NewExaminationIndexResult(it, (millis+before)/2)'))
bad('p05-orig-after', 'P05', (EX, '''	origExecTimeMillis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	var irs''', '''	var irs'''), (EX, '''	er := dmodel.NewExaminationResult(irs''', '''	origExecTimeMillis, err := iee.execute()
	if err != nil {
		return nil, err
	}
	er := dmodel.NewExaminationResult(irs'''))
bad('p05-dedup', 'P05', (EX, '''		irs = append(irs, res)
		if rs, ok''', '''		if len(irs) == 0 || irs[len(irs)-1].ExecutionTimeMillis != res.ExecutionTimeMillis {
			irs = append(irs, res)
		}
		if rs, ok'''))
bad('p05-seconds', 'P05', (PGX, 'return elapsed.Milliseconds(), nil', 'return elapsed.Microseconds(), nil'))
bad('p05-since-late', 'P05', (MYX, '''	_, err := ie.db.Exec(ie.query)
	if err != nil {
		return 0, err
	}
	elapsed := time.Since(start)
''', '''	elapsed := time.Since(start)
	_, err := ie.db.Exec(ie.query)
	if err != nil {
		return 0, err
	}
'''))
bad('p05-limit', 'P05', (MYX, 'ie.db.Exec(ie.query)', 'ie.db.Exec("SELECT * FROM (" + ie.query + ") t LIMIT 1")'))
bad('p05-both', 'P05', (PGC, '''	targets := varTargets
	if len(targets) == 0 {
		targets = lo.Filter(''', '''	targets := varTargets
	if len(targets) <= 1 {
		targets = lo.Filter('''))
bad('p05-first-n', 'P05', (MYC, 'bool { return it.IsSafe() })', 'bool { return it.IsSafe() && len(it.Columns) < 4 })'))
bad('p05-vars', 'P05', (HSX, 'ie.variables)', 'nil)'))
bad('p05-split', 'P05', (IT, '''	columns := strings.Split(m[2], indexTargetColumnSeparator)
''', '''	columns := strings.Split(m[2], indexTargetColumnSeparator)
	if len(columns) > 16 {
		columns = columns[:16]
	}
'''))
bad('p05-wrong-target', 'P05', (EX, '''	for _, it := range its {
		res, err := iee.examine(id, it)''', '''	for i, it := range its {
		res, err := iee.examine(id, it)
		if i > 0 && res != nil {
			res.IndexTarget = its[i-1]
		}'''))
good('p05-sub', (MYX, '''	elapsed := time.Since(start)

	return elapsed.Milliseconds(), nil''', '''	end := time.Now()

	return int64(end.Sub(start) / time.Millisecond), nil'''))
good('p05-loop-index', (EX, 'for _, it := range its {\n		res, err := iee.examine(id, it)', 'for i := 0; i < len(its); i++ {\n		it := its[i]\n		res, err := iee.examine(id, it)'))
good('p05-choose', (PGC, '''	targets := varTargets
	if len(targets) == 0 {
		targets = lo.Filter(possibleTargets, func(it *dmodel.IndexTarget, _ int) bool { return it.IsSafe() })
	}
''', '''	targets := chooseTargets(varTargets, possibleTargets)
'''), (PGC, '''func (pr *postgresRunner) examine(''', '''var _ = lo.Uniq[string]

func chooseTargets(given, possible []*dmodel.IndexTarget) []*dmodel.IndexTarget {
	if len(given) > 0 {
		return given
	}
	var res []*dmodel.IndexTarget
	for _, it := range possible {
		if !it.IsSafe() {
			continue
		}
		res = append(res, it)
	}
	return res
}

func (pr *postgresRunner) examine('''))
good('p05-lit', (EX, 'return dmodel.NewExaminationIndexResult(it, millis), nil', 'return &dmodel.ExaminationIndexResult{IndexTarget: it, ExecutionTimeMillis: millis}, nil'))
good('p05-prealloc', (EX, 'var irs []*dmodel.ExaminationIndexResult', 'irs := make([]*dmodel.ExaminationIndexResult, 0, len(its))'))
good('p05-timer', (PGX, '''	start := time.Now()
	_, err := ie.db.Exec(ie.query)
	if err != nil {
		return 0, err
	}
	elapsed := time.Since(start)

	return elapsed.Milliseconds(), nil
}''', '''	return measureMillis(func() error {
		_, err := ie.db.Exec(ie.query)
		return err
	})
}

func measureMillis(fn func() error) (int64, error) {
	start := time.Now()
	if err := fn(); err != nil {
		return 0, err
	}
	return time.Since(start).Milliseconds(), nil
}'''))

# ---------------------------------------------------------------- P06
ITG = 'database/dmodel/index_target.go'
REM = 'database/dservice/existing_index_remover.go'
bad('p06-prefix', 'P06', (ITG, 'if len(info.Columns) != len(it.Columns) {', 'if len(info.Columns) > len(it.Columns) {'))
bad('p06-case', 'P06', (ITG, 'if !strings.EqualFold(it.Columns[i].Name, col.Name) {', 'if it.Columns[i].Name != col.Name {'), (ITG, 'const indexTargetColumnSeparator = "+"', 'const indexTargetColumnSeparator = "+"\n\nvar _ = strings.ToLower'))
bad('p06-unfiltered', 'P06', ('database/hasura/hservice/index_suggester.go', '''	its, err = is.removeExistingIndexTargets(its)
	if err != nil {
		return nil, err
	}
''', '''	_, err = is.removeExistingIndexTargets(its)
	if err != nil {
		return nil, err
	}
'''))
bad('p06-group', 'P06', (REM, 'lo.GroupBy(idxInfos, func(i *dmodel.IndexTarget) string { return i.TableName })', 'lo.GroupBy(idxInfos, func(i *dmodel.IndexTarget) string { return i.Columns[0].Name })'))
bad('p06-first-only', 'P06', (REM, '''				if it.HasSameIdxColumns(id) {
					return false
				}
			}''', '''				return !it.HasSameIdxColumns(id)
			}'''))
bad('p06-tables', 'P06', (REM, 'tNames := lo.Map(idxTargets, func', 'tNames := lo.Map(idxTargets[:1], func'))
bad('p06-extra-filter', 'P06', (REM, '	return its, nil\n}', '	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool { return len(it.Columns) < 4 }), nil\n}'))
bad('p06-any-table', 'P06', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}''', '''		_ = idxGroups
		for _, id := range idxInfos {
			if it.HasSameIdxColumns(id) {
				return false
			}
		}
		return true'''))
bad('p06-any-column', 'P06', (ITG, '''		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
			return false
		}
	}

	return true''', '''		if strings.EqualFold(it.Columns[i].Name, col.Name) {
			return true
		}
	}

	return false'''))
good('p06-flag', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}''', '''		exists := false
		for _, id := range idxGroups[it.TableName] {
			if it.HasSameIdxColumns(id) {
				exists = true
				break
			}
		}
		return !exists'''))
good('p06-flag-nobreak', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}''', '''		exists := false
		for _, id := range idxGroups[it.TableName] {
			if it.HasSameIdxColumns(id) {
				exists = true
			}
		}
		return !exists'''))
good('p06-helper', (REM, '''	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool {
		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}
	})
}''', '''	var res []*dmodel.IndexTarget
	for _, it := range its {
		if hasIndex(idxGroups[it.TableName], it) {
			continue
		}
		res = append(res, it)
	}
	return res
}

func hasIndex(idxes []*dmodel.IndexTarget, it *dmodel.IndexTarget) bool {
	for i := 0; i < len(idxes); i++ {
		if it.HasSameIdxColumns(idxes[i]) {
			return true
		}
	}
	return false
}'''))
good('p06-all', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}''', '''		_ = idxGroups
		for _, id := range idxInfos {
			if id.TableName == it.TableName && it.HasSameIdxColumns(id) {
				return false
			}
		}
		return true'''))
good('p06-contains', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}''', '''		return !lo.ContainsBy(idxGroups[it.TableName], func(id *dmodel.IndexTarget) bool { return it.HasSameIdxColumns(id) })'''))
good('p06-lower', (ITG, 'if !strings.EqualFold(it.Columns[i].Name, col.Name) {', 'if strings.ToLower(it.Columns[i].Name) != strings.ToLower(col.Name) {'))
good('p06-same-var', (ITG, '''	if len(info.Columns) != len(it.Columns) {
		return false
	}

	for i, col := range info.Columns {
		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
			return false
		}
	}

	return true
''', '''	if len(info.Columns) != len(it.Columns) {
		return false
	}

	same := true
	for i, col := range it.Columns {
		same = same && strings.EqualFold(info.Columns[i].Name, col.Name)
	}

	return same
'''))
good('p06-manual-group', (REM, 'idxGroups := lo.GroupBy(idxInfos, func(i *dmodel.IndexTarget) string { return i.TableName })', '''idxGroups := map[string][]*dmodel.IndexTarget{}
	for _, i := range idxInfos {
		idxGroups[i.TableName] = append(idxGroups[i.TableName], i)
	}'''))

# ---- P09
HCL = 'infra/hasura/client.go'
PIF = 'infra/aws/performance_insights.go'
MSC = 'database/mysql/mservice/parser/collect_stmt_scopes.go'
PSC = 'database/postgres/pservice/parser/collect_stmt_scopes.go'
PTN = 'database/postgres/pservice/parser/collect_table_names.go'
MTN = 'database/mysql/mservice/parser/collect_table_names.go'
ROOT = 'cmd/root.go'
JF = 'otel/jaeger/trace_fetcher.go'
JCL = 'infra/jaeger/client.go'
bad('p09-page-break', 'P09', (PIF, '''			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
''', '''			_ = errors.Wrap(err, "")
			break
'''))
bad('p09-swallow', 'P09', (MYC, '''		err = mr.createHTML(outputPath, its, er, aTree)
		if err != nil {
			return err
		}
''', '''		err = mr.createHTML(outputPath, its, er, aTree)
		if err != nil {
			util.LogError(err)
			return nil
		}
'''))
bad('p09-shadow', 'P09', (HCL, '''	err = json.Unmarshal(b, &res)
	if err != nil {
		return errors.Wrap(err, "failed to decode response from Hasura")
	}
''', '''	if err := json.Unmarshal(b, &res); err == nil && len(res.Errors) == 0 {
		return nil
	}
'''))
bad('p09-lasterror', 'P09', (MSC, '''		tables, fields := sc.collectTables(stmt.From)
		if err := sc.getAndClearLastError(); err != nil {
			sc.errors = append(sc.errors, err)
		}
''', '''		tables, fields := sc.collectTables(stmt.From)
		_ = sc.getAndClearLastError()
'''))
bad('p09-errs-reset', 'P09', (PSC, '''		if err := sc.getAndClearLastError(); err != nil {
			sc.errors = append(sc.errors, err)
			continue
		}
''', '''		if err := sc.getAndClearLastError(); err != nil {
			sc.errors = []error{}
			continue
		}
'''))
bad('p09-owner', 'P09', (PSC, '''	if len(sc.errors) > 0 {
		return nil, sc.errors
	}
''', '''	if len(sc.errors) > 0 && len(sc.scopes) == 0 {
		return nil, sc.errors
	}
'''))
bad('p09-exit0', 'P09', (ROOT, 'os.Exit(1)', 'os.Exit(0)'))
bad('p09-nolog', 'P09', (ROOT, '''		util.LogError(err)
''', ''), (ROOT, '''	"github.com/mrasu/GravityR/cmd/util"
''', ''))
bad('p09-level', 'P09', (ROOT, 'zerolog.SetGlobalLevel(zerolog.InfoLevel)', 'zerolog.SetGlobalLevel(zerolog.FatalLevel)'))
bad('p09-wrong-err', 'P09', (EX, '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return''', '''	millis, errExec := iee.execute()
	if errExec != nil {
		return nil, err
	}

	return'''))
good('p09-helper', (HCL, '''	err = json.Unmarshal(b, &res)
	if err != nil {
		return errors.Wrap(err, "failed to decode response from Hasura")
	}
''', '''	if err = json.Unmarshal(b, &res); err != nil {
		return decodeErr(err)
	}
'''), (HCL, '''func (c *Client) resolveURL''', '''func decodeErr(err error) error {
	msg := "failed to decode response from Hasura"
	return errors.Wrap(err, msg)
}

func (c *Client) resolveURL'''))
good('p09-tail', (MYC, '''	er, err := dservice.NewIndexEfficiencyExaminer(ie).Run(targets)
	if err != nil {
		return nil, err
	}

	return er, nil
''', '''	return dservice.NewIndexEfficiencyExaminer(ie).Run(targets)
'''))
good('p09-inverted', (MSC, '''		f, err := sc.createFieldFromExpr(stmt.Having.Expr, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
''', '''		f, err := sc.createFieldFromExpr(stmt.Having.Expr, dparser.FieldReference)
		if err != nil {
			sc.recordError(err)
		} else {
			foundFields = append(foundFields, f)
		}
'''), (MSC, '''func (sc *scopeCollector) getAndClearLastError''', '''func (sc *scopeCollector) recordError(err error) {
	sc.errors = append(sc.errors, err)
}

func (sc *scopeCollector) getAndClearLastError'''))
good('p09-root-main', (ROOT, '''	err := rootCmd.Execute()
	if err != nil {
		util.LogError(err)
		os.Exit(1)
	}
''', '''	if err := rootCmd.Execute(); err == nil {
		return
	} else {
		util.LogError(err)
	}
	os.Exit(1)
'''))
HB = 'html/html_builder.go'
HT_IMP = '"html/template"'
F_OLD = '''	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrap(err, "failed to create html file")
	}

	err = tpl.Execute(f, m)
	if err != nil {
		_ = f.Close()
		return errors.Wrap(err, "failed to write template to html")
	}

	err = f.Close()
	if err != nil {
		return errors.Wrap(err, "failed to close html file")
	}

	return nil
'''
BUF_NEW = '''	buf := &bytes.Buffer{}
	err = tpl.Execute(buf, m)
	if err != nil {
		return errors.Wrap(err, "failed to write template to html")
	}
	if err := os.WriteFile(filename, buf.Bytes(), 0o644); err != nil {
		return errors.Wrap(err, "failed to write html file")
	}
	return nil
'''
bad('p10-text-template', 'P10', (HB, HT_IMP, 'htmpl "html/template"\n\t"text/template"'), (HB, 'template.JS(', 'htmpl.JS('), (HB, 'template.CSS(', 'htmpl.CSS('))
bad('p10-js-query', 'P10', (HB, '''		"gr":     bo.createGrMap(),
''', '''		"gr":     bo.createGrMap(),
		"title":  template.HTML(htmlType + filename),
'''))
bad('p10-funcmap', 'P10', (HB, 'template.New("").Parse(tmpl)', 'template.New("").Funcs(template.FuncMap{"safe": func(s string) template.JS { return template.JS(s) }}).Parse(tmpl)'))
bad('p10-splice', 'P10', (HB, 'template.New("").Parse(tmpl)', 'template.New("").Parse(tmpl + "<!-- " + filename + " -->")'))
bad('p10-fprintf', 'P10', (HB, '''	err = f.Close()
	if err != nil {
''', '''	_, err = fmt.Fprintf(f, "<!-- %s -->", filename)
	if err != nil {
		return err
	}
	err = f.Close()
	if err != nil {
'''), (HB, HT_IMP, '"fmt"\n\t"html/template"'))
bad('p11-append', 'P11', (HB, 'os.Create(filename)', 'os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0o644)'))
bad('p11-other-path', 'P11', (HB, 'os.Create(filename)', 'os.Create(filename + ".html")'))
bad('p11-tmp', 'P11', (HB, F_OLD, '''	f, err := os.CreateTemp("", "gr")
	if err != nil {
		return errors.Wrap(err, "failed to create html file")
	}
	err = tpl.Execute(f, m)
	if err != nil {
		_ = f.Close()
		return errors.Wrap(err, "failed to write template to html")
	}
	err = f.Close()
	if err != nil {
		return errors.Wrap(err, "failed to close html file")
	}
	return os.Rename(f.Name(), filename)
'''))
bad('p11-early', 'P11', (MYC, '''	aTree, err := mservice.NewExplainer(db)''', '''	if outputPath != "" {
		f, err := os.Create(outputPath)
		if err != nil {
			return err
		}
		if err := f.Close(); err != nil {
			return err
		}
	}
	aTree, err := mservice.NewExplainer(db)'''), (MYC, 'import (', 'import (\n\t"os"'))
bad('p11-skip-nosuggestion', 'P11', (PGC, 'if outputPath != "" {', 'if outputPath != "" && len(its) > 0 {'))
bad('p11-close-ignored', 'P11', (HB, '''	err = f.Close()
	if err != nil {
		return errors.Wrap(err, "failed to close html file")
	}

	return nil
''', '''	_ = f.Close()
	return nil
'''))
bad('p11-exists', 'P11', (HB, '''	f, err := os.Create(filename)
''', '''	if _, err := os.Stat(filename); err == nil {
		return nil
	}
	f, err := os.Create(filename)
'''))
good('p10-buffer', (HB, F_OLD, BUF_NEW), (HB, 'import (', 'import (\n\t"bytes"'))
good('p10-helper', (HB, F_OLD, '''	return writeFile(tpl, filename, m)
}

func writeFile(tpl *template.Template, name string, m interface{}) (err error) {
	f, err := os.Create(name)
	if err != nil {
		return errors.Wrap(err, "failed to create html file")
	}
	defer func() {
		if cerr := f.Close(); err == nil && cerr != nil {
			err = errors.Wrap(cerr, "failed to close html file")
		}
	}()

	if err = tpl.Execute(f, m); err != nil {
		return errors.Wrap(err, "failed to write template to html")
	}
	return nil
'''))
good('p10-openfile', (HB, 'os.Create(filename)', 'os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)'))
good('p10-bufio', (HB, '''	err = tpl.Execute(f, m)
	if err != nil {
		_ = f.Close()
		return errors.Wrap(err, "failed to write template to html")
	}
''', '''	bw := bufio.NewWriter(f)
	err = tpl.Execute(bw, m)
	if err == nil {
		err = bw.Flush()
	}
	if err != nil {
		_ = f.Close()
		return errors.Wrap(err, "failed to write template to html")
	}
'''), (HB, 'import (', 'import (\n\t"bufio"'))
good('p10-marshal', (HB, '''		"gr":     bo.createGrMap(),
''', '''		"gr":     template.JS(gr),
'''), (HB, '''	m := map[string]interface{}{''', '''	gr, err := json.Marshal(bo.createGrMap())
	if err != nil {
		return errors.Wrap(err, "failed to encode")
	}
	m := map[string]interface{}{'''), (HB, 'import (', 'import (\n\t"encoding/json"'))
good('p11-early-return', (MYC, '''	if outputPath != "" {
		err = mr.createHTML(outputPath, its, er, aTree)
		if err != nil {
			return err
		}

		util.LogResultOutputPath(outputPath)
	}
	return nil
''', '''	if len(outputPath) == 0 {
		return nil
	}
	if err := mr.createHTML(outputPath, its, er, aTree); err != nil {
		return err
	}
	util.LogResultOutputPath(outputPath)
	return nil
'''))
ECO = 'html/viewmodel/vm_examination_command_option.go'
ERS = 'database/dmodel/examination_result.go'
BO = 'html/build_option.go'
bad('p13-query-trim', 'P13', (MYC, '''	bo := html.NewSuggestMySQLDataBuildOption(
		mr.query,''', '''	bo := html.NewSuggestMySQLDataBuildOption(
		strings.TrimRight(mr.query, ";"),'''), (MYC, 'import (', 'import (\n\t"strings"'))
bad('p13-gql-swap', 'P13', (HSC, '''		pr.query,
		variables,
		sql,''', '''		sql,
		variables,
		pr.query,'''))
bad('p13-opts-q', 'P13', (PGC, 'Name: "q", Value: pr.query', 'Name: "q", Value: outputPath'))
bad('p13-opts-json', 'P13', (HSC, '''			{IsShort: false, Name: "json-variables", Value: pr.jsonVariables},
''', ''))
bad('p13-opts-name', 'P13', (HSC, 'IsShort: false, Name: "json-variables"', 'IsShort: false, Name: "variables"'))
bad('p13-opts-examine', 'P13', (PGC, 'CreateOutputExaminationOption(!pr.runsExamination', 'CreateOutputExaminationOption(pr.runsExamination'))
bad('p13-opts-ext', 'P13', (ECO, '"_examine" + filepath.Ext(filename)', '"_examine.html"'))
bad('p13-results-cap', 'P13', (ERS, '''		virs = append(virs, ir.ToViewModel())''', '''		if ir.ExecutionTimeMillis < er.OriginalTimeMillis {
			virs = append(virs, ir.ToViewModel())
		}'''))
bad('p13-no-result', 'P13', (MYC, '''	if er != nil {
		ver = er.ToViewModel()''', '''	if er != nil && len(er.IndexResults) > 0 {
		ver = er.ToViewModel()'''))
bad('p13-cols', 'P13', (IT, '''	for _, c := range it.Columns {
		vm.Columns = append(vm.Columns, c.ToViewModel())
	}''', '''	for i := len(it.Columns) - 1; i >= 0; i-- {
		vm.Columns = append(vm.Columns, it.Columns[i].ToViewModel())
	}'''))
bad('p13-cols-safe', 'P13', ('database/dmodel/index_column.go', 'VmIndexColumn{Name: ic.Name}', 'VmIndexColumn{Name: ic.SafeName()}'))
bad('p13-top', 'P13', (MYC, "lo.Map(its, func", "lo.Map(lo.Slice(its, 0, 10), func"))
bad('p13-time', 'P13', (ERS, 'OriginalTimeMillis: er.OriginalTimeMillis', 'OriginalTimeMillis: er.IndexResults[0].ExecutionTimeMillis'))
good("p13-loop", (MYC, '''lo.Map(its, func(it *dmodel.IndexTarget, _ int) *viewmodel.VmIndexTarget { return it.ToViewModel() })''', '''make([]*viewmodel.VmIndexTarget, 0, len(its))
	for i := range its {
		vits = append(vits, its[i].ToViewModel())
	}'''))
good('p13-map', (ERS, '''	var virs []*viewmodel.VmExaminationIndexResult
	for _, ir := range er.IndexResults {
		virs = append(virs, ir.ToViewModel())
	}
''', '''	virs := lo.Map(er.IndexResults, func(ir *ExaminationIndexResult, _ int) *viewmodel.VmExaminationIndexResult {
		return ir.ToViewModel()
	})
'''), (ERS, 'import "github.com/mrasu/GravityR/html/viewmodel"', 'import (\n"github.com/mrasu/GravityR/html/viewmodel"\n"github.com/samber/lo"\n)'))
good('p13-opts-helper', (ECO, '''	val := filename
	if addPrefix {
		val = strings.TrimSuffix(filename, filepath.Ext(filename)) + "_examine" + filepath.Ext(filename)
	}

	return &VmExaminationCommandOption{
		IsShort: true,
		Name:    "o",
		Value:   val,
	}
''', '''	if !addPrefix {
		return newOpt("o", filename)
	}
	ext := filepath.Ext(filename)
	return newOpt("o", filename[:len(filename)-len(ext)]+"_examine"+ext)
}

func newOpt(name, value string) *VmExaminationCommandOption {
	o := &VmExaminationCommandOption{IsShort: true}
	o.Name = name
	o.Value = value
	return o
'''), (ECO, '	"strings"\n', ''))
good('p13-ver', (MYC, '''	var ver *viewmodel.VmExaminationResult
	if er != nil {
		ver = er.ToViewModel()
	}
''', '''	ver := toVm(er)
'''), (MYC, 'func (mr *mysqlRunner) createHTML', '''func toVm(er *dmodel.ExaminationResult) *viewmodel.VmExaminationResult {
	if er == nil {
		return nil
	}
	return er.ToViewModel()
}

func (mr *mysqlRunner) createHTML'''))
good('p13-bo', (BO, '''	return &BuildOption{SuggestData: &suggestData{
		MySQL: &mysqlData{
			Query:              query,
			AnalyzeNodes:       analyzeNodes,
			IndexTargets:       indexTargets,
			CommandOptions:     commandOptions,
			ExaminationResults: examinationResults,
		},
	}}
''', '''	d := mysqlData{
		Query:        query,
		AnalyzeNodes: analyzeNodes,
	}
	d.IndexTargets = indexTargets
	d.CommandOptions = commandOptions
	d.ExaminationResults = examinationResults
	return &BuildOption{SuggestData: &suggestData{MySQL: &d}}
'''))
bad('p13-makelen', 'P13', (MYC, 'lo.Map(its, func(it *dmodel.IndexTarget, _ int) *viewmodel.VmIndexTarget { return it.ToViewModel() })', '''make([]*viewmodel.VmIndexTarget, len(its))
	for i := range its {
		vits = append(vits, its[i].ToViewModel())
	}'''))
good('p13-makeidx', (MYC, 'lo.Map(its, func(it *dmodel.IndexTarget, _ int) *viewmodel.VmIndexTarget { return it.ToViewModel() })', '''make([]*viewmodel.VmIndexTarget, len(its))
	for i, it := range its {
		vits[i] = it.ToViewModel()
	}'''))
VMD='html/viewmodel/'
bad('p12-tag', 'P12', (VMD+'vm_examination_result.go', '`json:"indexResults"`', '`json:"results"`'))
bad('p12-omit', 'P12', (VMD+'vm_db_load_of_sql.go', '`json:"tokenizedId"`', '`json:"tokenizedId,omitempty"`'))
bad('p12-dup', 'P12', (VMD+'vm_db_load_of_sql.go', '`json:"loadSum"`', '`json:"loadMax"`'))
bad('p12-string', 'P12', (VMD+'vm_otel_trace_span.go', '`json:"endTimeMillis"`', '`json:"endTimeMillis,string"`'))
bad('p12-kind', 'P12', (VMD+'vm_examination_command_option.go', '`json:"isShort"`', '`json:"isShort,string"`'))
bad('p12-unexported', 'P12', (BO, '"digData":     bo.DigData', '"dig":     bo.DigData'))
bad('p12-dts', 'P12', ('client/src/types/gr_param.d.ts', 'sameServiceAccessCount: number', 'sameServiceCount: number'))
bad('p12-seconds', 'P12', (VMD+'vm_time_db_load.go', 'UnixMilli()', 'Unix()'))
good('p12-embed', (BO, '''type mysqlData struct {
	Query              string                                  `json:"query"`
''', '''type queryData struct {
	Query string `json:"query"`
}

type mysqlData struct {
	queryData
'''), (BO, '''		MySQL: &mysqlData{
			Query:              query,
''', '''		MySQL: &mysqlData{
			queryData:          queryData{Query: query},
'''))
good('p12-order', (VMD+'vm_db_load_of_sql.go', '''	LoadMax     float64 `json:"loadMax"`
	LoadSum     float64 `json:"loadSum"`
''', '''	LoadSum     float64 `json:"loadSum"`
	LoadMax     float64 `json:"loadMax"`
	Note string
'''))
good('p12-dts-comment', ('client/src/types/gr_param.d.ts', 'interface IDbLoad {', '''/* one
 database */
interface IDbLoad {
  // its name'''))
good('p12-nano', (VMD+'vm_time_db_load.go', 'strconv.FormatInt(time.Time(t).UnixMilli(), 10)', 'strconv.FormatInt(time.Time(t).UnixNano()/int64(time.Millisecond), 10)'))

# ---- P15
PCF = 'infra/postgres/config.go'
MCF = 'infra/mysql/config.go'
PGALL = '''	var texts []string
	if cfg.user != "" {
		texts = append(texts, "user="+quoteKVValue(cfg.user))
	}
	if cfg.password != "" {
		texts = append(texts, "password="+quoteKVValue(cfg.password))
	}
	if cfg.host != "" {
		texts = append(texts, "host="+quoteKVValue(cfg.host))
	}
	if cfg.port != "" {
		texts = append(texts, "port="+quoteKVValue(cfg.port))
	}
	if cfg.DBName != "" {
		texts = append(texts, "dbname="+quoteKVValue(cfg.DBName))
	}
	texts = append(texts, "sslmode=disable")
	if cfg.paramText != "" {
		// the last value is used when a key appears several times
		texts = append(texts, cfg.paramText)
	}

	return strings.Join(texts, " ")
'''
good('p15-table', (PCF, PGALL, '''	var texts []string
	for _, kv := range []struct{ key, value string }{
		{"user", cfg.user},
		{"password", cfg.password},
		{"host", cfg.host},
		{"port", cfg.port},
		{"dbname", cfg.DBName},
	} {
		if kv.value == "" {
			continue
		}
		texts = append(texts, kv.key+"="+quoteKVValue(kv.value))
	}
	texts = append(texts, "sslmode=disable")
	if cfg.paramText != "" {
		texts = append(texts, cfg.paramText)
	}

	return strings.Join(texts, " ")
'''))
good('p15-closure', (PCF, PGALL, '''	var texts []string
	add := func(key, value string) {
		if len(value) > 0 {
			texts = append(texts, key+"="+quoteKVValue(value))
		}
	}
	add("user", cfg.user)
	add("password", cfg.password)
	add("host", cfg.host)
	add("port", cfg.port)
	add("dbname", cfg.DBName)
	texts = append(texts, "sslmode=disable")
	if cfg.paramText != "" {
		texts = append(texts, cfg.paramText)
	}
	return strings.Join(texts, " ")
'''))
good('p15-helper', (PCF, PGALL, '''	var texts []string
	texts = appendKV(texts, "user", cfg.user)
	texts = appendKV(texts, "password", cfg.password)
	texts = appendKV(texts, "host", cfg.host)
	texts = appendKV(texts, "port", cfg.port)
	texts = appendKV(texts, "dbname", cfg.DBName)
	texts = append(texts, "sslmode=disable")
	if cfg.paramText != "" {
		texts = append(texts, cfg.paramText)
	}
	return strings.Join(texts, " ")
}

func appendKV(texts []string, key, value string) []string {
	if value == "" {
		return texts
	}
	return append(texts, key+"="+quoteKVValue(value))
'''))
good('p15-concat', (PCF, PGALL, '''	text := "user=" + quoteKVValue(cfg.user)
	if cfg.password != "" {
		text += " password=" + quoteKVValue(cfg.password)
	}
	if cfg.host != "" {
		text += " host=" + quoteKVValue(cfg.host)
	}
	if cfg.port != "" {
		text += " port=" + quoteKVValue(cfg.port)
	}
	text += " dbname=" + quoteKVValue(cfg.DBName) + " sslmode=disable"
	if cfg.paramText != "" {
		text += " " + cfg.paramText
	}

	_ = strings.Join
	return text
'''))
good('p15-builder', (PCF, PGALL, '''	var sb strings.Builder
	if cfg.user != "" {
		sb.WriteString("user=" + quoteKVValue(cfg.user) + " ")
	}
	if cfg.password != "" {
		sb.WriteString("password=" + quoteKVValue(cfg.password) + " ")
	}
	if cfg.host != "" {
		sb.WriteString("host=" + quoteKVValue(cfg.host) + " ")
	}
	if cfg.port != "" {
		sb.WriteString("port=" + quoteKVValue(cfg.port) + " ")
	}
	if cfg.DBName != "" {
		sb.WriteString("dbname=" + quoteKVValue(cfg.DBName) + " ")
	}
	sb.WriteString("sslmode=disable")
	if cfg.paramText != "" {
		sb.WriteString(" " + cfg.paramText)
	}

	return sb.String()
'''))
good('p15-replaceall', (PCF, '''	return "'" + strings.NewReplacer(`\\`, `\\\\`, "'", `\\'`).Replace(value) + "'"''', '''	value = strings.ReplaceAll(value, `\\`, `\\\\`)
	value = strings.ReplaceAll(value, "'", `\\'`)
	return "'" + value + "'"'''))
bad('p15-replaceorder', 'P15', (PCF, '''	return "'" + strings.NewReplacer(`\\`, `\\\\`, "'", `\\'`).Replace(value) + "'"''', '''	value = strings.ReplaceAll(value, "'", `\\'`)
	value = strings.ReplaceAll(value, `\\`, `\\\\`)
	return "'" + value + "'"'''))
bad('p15-nobackslash', 'P15', (PCF, 'strings.NewReplacer(`\\`, `\\\\`, "\'", `\\\'`)', 'strings.NewReplacer("\'", `\\\'`)'))
bad('p15-swap', 'P15', (PCF, 'cfg.host = os.Getenv("DB_HOST")', 'cfg.host = os.Getenv("DB_ADDRESS")'))
bad('p15-noport', 'P15', (PCF, 'if cfg.port != "" {', 'if cfg.port != "" && cfg.host != "" {'))
bad('p15-raw', 'P15', (PCF, 'quoteKVValue(cfg.password)', "\"'\"+cfg.password+\"'\""))
bad('p15-params-first', 'P15', (PCF, '''	texts = append(texts, "sslmode=disable")
	if cfg.paramText != "" {
		// the last value is used when a key appears several times
		texts = append(texts, cfg.paramText)
	}
''', '''	if cfg.paramText != "" {
		// the last value is used when a key appears several times
		texts = append(texts, cfg.paramText)
	}
	texts = append(texts, "sslmode=disable")
'''))
bad('p15-user-optional', 'P15', (PCF, '''	username, err := lib.GetEnv("DB_USERNAME")
	if err != nil {
		return nil, err
	}
''', '''	username := os.Getenv("DB_USERNAME")
'''))
bad('p15-trim', 'P15', (PCF, 'cfg.password = os.Getenv("DB_PASSWORD")', 'cfg.password = strings.TrimRight(os.Getenv("DB_PASSWORD"), "\\n")'))
bad('p15-default-host', 'P15', (PCF, 'cfg.host = os.Getenv("DB_HOST")', 'cfg.host = os.Getenv("DB_HOST")\n	if cfg.host == "" {\n		cfg.host = "localhost"\n	}\n	if cfg.password == "" {\n		cfg.host = "127.0.0.1"\n	}\n'))
bad('p15-my-pass', 'P15', (MCF, '	cfg.Passwd = os.Getenv("DB_PASSWORD")\n', '	if p := os.Getenv("DB_PASSWORD"); len(p) > 1 {\n		cfg.Passwd = p\n	}\n'))
bad('p15-my-noaddr', 'P15', (MCF, 'if len(address) > 0 {', 'if len(address) > 0 && protocol == "tcp" {'))
bad('p15-my-net', 'P15', (MCF, '''	if len(protocol) == 0 {
		protocol = "tcp"
	}
''', ''))
bad('p15-my-unix', 'P15', (MCF, 'protocol = "tcp"', 'protocol = "unix"'))
bad('p15-my-amp', 'P15', (MCF, 'dsn += "?" + cfg.paramText', 'dsn += "&" + cfg.paramText'))
bad('p15-my-field', 'P15', (MCF, '	cfg.Net = protocol\n', '	cfg.Net = protocol\n	cfg.ParseTime = true\n'))
bad('p15-my-db', 'P15', (MCF, '	cfg.DBName = database\n', '	cfg.DBName = strings.ToLower(database)\n'), (MCF, '	"os"\n', '	"os"\n	"strings"\n'))
good('p15-my-default-first', (MCF, '''	protocol := os.Getenv("DB_PROTOCOL")
	if len(protocol) == 0 {
		protocol = "tcp"
	}
	cfg.Net = protocol
''', '''	cfg.Net = "tcp"
	if protocol := os.Getenv("DB_PROTOCOL"); protocol != "" {
		cfg.Net = protocol
	}
'''))
good('p15-my-helper', (MCF, '''	protocol := os.Getenv("DB_PROTOCOL")
	if len(protocol) == 0 {
		protocol = "tcp"
	}
	cfg.Net = protocol
''', '''	cfg.Net = envOr("DB_PROTOCOL", "tcp")
'''), (MCF, 'func (cfg *Config) ToDSN', '''func envOr(key, other string) string {
	v := os.Getenv(key)
	if v != "" {
		return v
	}
	return other
}

func (cfg *Config) ToDSN'''), (MCF, '''	address := os.Getenv("DB_ADDRESS")
	if len(address) > 0 {
		cfg.Addr = address
	}
''', '	cfg.Addr = os.Getenv("DB_ADDRESS")\n'))
good('p15-my-dsn', (MCF, '''	dsn := cfg.config.FormatDSN()
	if len(cfg.paramText) > 0 {
		dsn += "?" + cfg.paramText
	}

	return dsn
''', '''	dsn := cfg.config.FormatDSN()
	if cfg.paramText == "" {
		return dsn
	}

	return fmt.Sprintf("%s?%s", dsn, cfg.paramText)
'''), (MCF, '	"os"\n', '	"os"\n	"fmt"\n'))

# ---- P17
MII = 'infra/mysql/index_info.go'
MCI = 'infra/mysql/column_info.go'
PII = 'infra/postgres/index_info.go'
PCI = 'infra/postgres/column_info.go'
HII = 'infra/hasura/index_info.go'
HCI = 'infra/hasura/column_info.go'
TSC = 'database/dservice/dparser/table_schema.go'
bad('p17-seq', 'P17', (MII, 'TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX', 'TABLE_NAME, INDEX_NAME'))
bad('p17-seq-desc', 'P17', (MII, 'TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX', 'TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX DESC'))
bad('p17-seq-first', 'P17', (MII, 'TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX', 'TABLE_NAME, SEQ_IN_INDEX, INDEX_NAME'))
bad('p17-unique', 'P17', (MII, 'TABLE_SCHEMA = ? AND\n', 'TABLE_SCHEMA = ? AND NON_UNIQUE = 1 AND\n'))
bad('p17-limit', 'P17', (MCI, 'ORDER BY TABLE_NAME, ORDINAL_POSITION', 'ORDER BY TABLE_NAME, ORDINAL_POSITION LIMIT 1000'))
bad('p17-group-index', 'P17', (MII, 'if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {', 'if lastIName == flatInfo.IndexName && len(lastTName) > 0 {'))
bad('p17-group-or', 'P17', (MII, 'lastTName == flatInfo.TableName && lastIName', 'lastTName == flatInfo.TableName || lastIName'))
bad('p17-last-once', 'P17', (MII, '''		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
''', '''		if lastTName == "" {
			lastTName = flatInfo.TableName
		}
		lastIName = flatInfo.IndexName
'''))
bad('p17-prepend', 'P17', (MII, 'idx.Columns = append(idx.Columns, flatInfo.ColumnName)', 'idx.Columns = append([]string{flatInfo.ColumnName}, idx.Columns...)'))
bad('p17-bind', 'P17', ('infra/mysql/db.go', 'sqlx.In(indexFetchQuery, database, tables)', 'sqlx.In(indexFetchQuery, tables[0], tables)'))
bad('p17-some-tables', 'P17', ('infra/mysql/db.go', 'sqlx.In(columnFetchQuery, dbName, tables)', 'sqlx.In(columnFetchQuery, dbName, tables[:1])'))
bad('p17-norebind', 'P17', ('infra/postgres/db.go', '''	query = db.db.Rebind(query)

	var qInfos''', '''
	var qInfos'''))
bad('p17-pg-order', 'P17', (PII, '		ORDER BY k\n', '		ORDER BY k DESC\n'))
bad('p17-pg-off', 'P17', (PII, 'k + 1, TRUE', 'k, TRUE'))
bad('p17-pg-primary', 'P17', (PII, 't.relname IN (?)', 't.relname IN (?) AND NOT pg_index.indisprimary'))
bad('p17-pg-left', 'P17', (PCI, 'LEFT OUTER JOIN pg_index', 'INNER JOIN pg_index'))
bad('p17-pg-class', 'P17', (PII, 't.relname AS table_name', 'i.relname AS table_name'))
bad('p17-hs-cols', 'P17', (HCI, '''			TableName:  r[0],
			ColumnName: r[1],''', '''			TableName:  r[1],
			ColumnName: r[0],'''))
bad('p17-hs-select-order', 'P17', (HCI, '''	pg_class.relname AS table_name,
	pg_attribute.attname AS column_name,
''', '''	pg_attribute.attname AS column_name,
	pg_class.relname AS table_name,
'''))
bad('p17-hs-true', 'P17', (HCI, 'if r[2] == "t" {', 'if r[2] == "true" {'))
bad('p17-hs-skip', 'P17', (HCI, 'if i == 0 {', 'if i <= 1 {'))
bad('p17-hs-dup', 'P17', (HII, 'if i == 0 {', 'if i == 0 || len(r[1]) == 2 {'))
bad('p17-pk-mul', 'P17', ('database/mysql/mservice/parser/collect_table_schemas.go', 'c.ColumnKey == "PRI"', 'c.ColumnKey != ""'))
bad('p17-pk-all', 'P17', (TSC, '''		if isPK {
			t.PrimaryKeys''', '''		if isPK || len(t.PrimaryKeys) > 0 {
			t.PrimaryKeys'''))
bad('p17-pk-else', 'P17', (TSC, '''		t.Columns = append(t.Columns, &ColumnSchema{
			Name: colName,
		})

		if isPK {
			t.PrimaryKeys = append(t.PrimaryKeys, colName)
		}
''', '''		if isPK {
			t.PrimaryKeys = append(t.PrimaryKeys, colName)
			continue
		}
		t.Columns = append(t.Columns, &ColumnSchema{
			Name: colName,
		})
'''))
bad('p17-search', 'P17', (PCF, '	if cfg.searchPath == "" {\n		return "public"', '	if cfg.searchPath != cfg.DBName {\n		return "public"'))
bad('p17-search-env', 'P17', (PCF, 'os.Getenv("DB_SEARCH_PATH")', 'os.Getenv("DB_SCHEMA")'))
good('p17-text', (MII, '''SELECT
	TABLE_NAME,
	INDEX_NAME,
	COLUMN_NAME
FROM
	information_schema.STATISTICS
WHERE
	TABLE_SCHEMA = ? AND
	TABLE_NAME IN (?)
ORDER BY
	TABLE_NAME, INDEX_NAME, SEQ_IN_INDEX
''', '''SELECT s.INDEX_NAME, s.TABLE_NAME, s.COLUMN_NAME
FROM information_schema.statistics AS s
WHERE s.TABLE_SCHEMA = ? AND s.TABLE_NAME IN (?)
ORDER BY s.TABLE_NAME ASC, s.INDEX_NAME, s.SEQ_IN_INDEX
'''))
good('p17-pg-text', (PII, '''FROM pg_index
	INNER JOIN pg_class AS i ON pg_index.indexrelid = i.oid
	INNER JOIN pg_class AS t ON pg_index.indrelid = t.oid
	INNER JOIN pg_namespace ON i.relnamespace = pg_namespace.oid
WHERE
	pg_namespace.nspname = ? AND
	t.relname IN (?)
''', '''FROM pg_index
	JOIN pg_class t ON t.oid = pg_index.indrelid
	JOIN pg_class i ON i.oid = pg_index.indexrelid
	JOIN pg_namespace AS n ON n.oid = i.relnamespace
WHERE n.nspname = ? AND t.relname IN (?)
'''))
good('p17-group-else', (MII, '''			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}

		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
''', '''			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
			continue
		}
		infos = append(infos, &IndexInfo{
			TableName: flatInfo.TableName,
			Columns:   []string{flatInfo.ColumnName},
		})
		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
'''))
good('p17-group-neg', (MII, '''		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}
''', '''		isNew := lastTName != flatInfo.TableName || lastIName != flatInfo.IndexName
		if isNew {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		} else {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		}
'''))
good('p17-group-empty', (MII, '''			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}
''', '''			infos = append(infos, newInfo(flatInfo))
		}
'''), (MII, 'func toIndexInfo', '''func newInfo(f *flatIndexInfo) *IndexInfo {
	return &IndexInfo{
		TableName: f.TableName,
		Columns:   []string{f.ColumnName},
	}
}

func toIndexInfo'''))
good('p17-group-var', (MII, '''			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
''', '''			info := &IndexInfo{TableName: flatInfo.TableName}
			info.Columns = append(info.Columns, flatInfo.ColumnName)
			infos = append(infos, info)
'''))
good('p17-group-prev', (MII, '''	lastTName := ""
	lastIName := ""
	for _, flatInfo := range orderedFlatInfo {
		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
''', '''	for i, flatInfo := range orderedFlatInfo {
		if i > 0 && orderedFlatInfo[i-1].TableName == flatInfo.TableName && orderedFlatInfo[i-1].IndexName == flatInfo.IndexName {
'''), (MII, '''
		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
''', ''))
good('p17-hs-loop', (HCI, '''	for i, r := range res.Result {
		if i == 0 {
			// first row shows name of columns
			continue
		}

		if len(r) < 3 {
			return nil, errors.Errorf("unexpected result from hasura to fetch columns: %d values exist in a row", len(r))
		}

		isPk := false
		if r[2] == "t" {
			isPk = true
		}

		cols = append(cols, &ColumnInfo{
			TableName:  r[0],
			ColumnName: r[1],
			IsPK:       isPk,
		})
''', '''	for i := 1; i < len(res.Result); i++ {
		r := res.Result[i]
		if len(r) < 3 {
			return nil, errors.Errorf("unexpected result from hasura to fetch columns: %d values exist in a row", len(r))
		}

		cols = append(cols, &ColumnInfo{
			TableName:  r[0],
			ColumnName: r[1],
			IsPK:       r[2] == "t",
		})
'''))
good('p17-hs-tail', (HII, '''	for i, r := range res.Result {
		if i == 0 {
			// first row shows name of columns
			continue
		}

''', '''	if len(res.Result) == 0 {
		return infos, nil
	}
	for _, r := range res.Result[1:] {
'''))
good('p17-schema-loop', (TSC, '''		var t *TableSchema
		tName, colName, isPK := f(v)
		if et, ok := ts[tName]; ok {
			t = et
		} else {
			t = &TableSchema{
				Name: tName,
			}
			ts[tName] = t
		}
''', '''		tName, colName, isPK := f(v)
		t, ok := ts[tName]
		if !ok {
			t = &TableSchema{Name: tName}
			ts[tName] = t
		}
'''))
good('p17-pg-map-loop', (PII, '''	return lo.Map(queryInfos, func(qi *queryIndexInfo, _ int) *IndexInfo {
		return &IndexInfo{
			TableName: qi.TableName,
			Columns:   qi.ColumnNames,
		}
	})
''', '''	infos := make([]*IndexInfo, 0, len(queryInfos))
	for _, qi := range queryInfos {
		infos = append(infos, &IndexInfo{TableName: qi.TableName, Columns: qi.ColumnNames})
	}
	return infos
'''), (PII, '	"github.com/samber/lo"\n', ''))

# ---- P24: requests to Hasura
HCFG = 'infra/hasura/config.go'
bad('p24-resolve', 'P24', (HCL, '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
''', '''	u := *c.baseURL
	u.Path = pathname
'''), (HCL, '	"path"\n', ''))
bad('p24-shared', 'P24', (HCL, '	u := *c.baseURL\n', '	u := c.baseURL\n'))
bad('p24-ref', 'P24', (HCL, '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
''', '''	return c.baseURL.ResolveReference(&url.URL{Path: path.Join("/", pathname)}).String()
'''))
bad('p24-concat', 'P24', (HCL, '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
''', '''	return c.baseURL.String() + path.Clean(pathname)
'''))
bad('p24-query', 'P24', (HCL, '	u.Path = path.Join(u.Path, pathname)\n', '	u.Path = path.Join(u.Path, pathname)\n	u.Host = u.Hostname()\n'))
bad('p24-secret-env', 'P24', (HCFG, 'lib.GetEnv("HASURA_ADMIN_SECRET")', 'lib.GetEnv("HASURA_SECRET")'))
bad('p24-secret-missing', 'P24', (HCFG, '''	s, err := lib.GetEnv("HASURA_ADMIN_SECRET")
	if err != nil {
		return nil, err
	}
''', '''	s, _ := lib.GetEnv("HASURA_ADMIN_SECRET")
'''))
bad('p24-secret-explain', 'P24', (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	if pathname != explainPath {
		for k, v := range c.headers {
			req.Header.Add(k, v)
		}
	}
'''))
bad('p24-secret-name', 'P24', (HCL, '"x-hasura-admin-secret"', '"x-hasura-access-key"'))
bad('p24-status', 'P24', (HCL, 'res.StatusCode != 200', 'res.StatusCode >= 500'))
bad('p24-status2', 'P24', (HCL, 'res.StatusCode != 200', 'res.StatusCode != 200 && pathname == queryPath'))
bad('p24-errors', 'P24', (HCL, '	if len(res.Errors) > 0 {', '	if len(res.Errors) > 1 {'))
bad('p24-errors-tag', 'P24', (HCL, '`json:"errors"`', '`json:"error"`'))
bad('p24-type', 'P24', (HCL, '"type": "run_sql"', '"type": "bulk"'))
good('p24-joinpath', (HCL, '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
''', '''	return c.baseURL.JoinPath(pathname).String()
'''), (HCL, '	"path"\n', ''))
good('p24-set', (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	c.authorize(req)
'''), (HCL, 'func (c *Client) post(', '''func (c *Client) authorize(req *http.Request) {
	for k, v := range c.headers {
		req.Header.Set(k, v)
	}
}

func (c *Client) post('''))
good('p24-direct', (HCL, '	headers map[string]string\n', '	secret  string\n'), (HCL, '''		headers: map[string]string{
			"x-hasura-admin-secret": cfg.AdminSecret,
		},
''', '''		secret:  cfg.AdminSecret,
'''), (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	req.Header.Set("X-Hasura-Admin-Secret", c.secret)
'''))
good('p24-status-helper', (HCL, '''	if res.StatusCode != 200 {
		text, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return io.ReadAll(res.Body)
}
''', '''	if err := checkStatus(res); err != nil {
		return nil, err
	}

	return io.ReadAll(res.Body)
}

func checkStatus(res *http.Response) error {
	if res.StatusCode == http.StatusOK {
		return nil
	}
	text, err := io.ReadAll(res.Body)
	if err != nil {
		return errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
	}

	return errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
}
'''))
good('p24-status-switch', (HCL, '''	if res.StatusCode != 200 {
		text, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return io.ReadAll(res.Body)
''', '''	text, err := io.ReadAll(res.Body)
	if err != nil {
		return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
	}
	switch res.StatusCode {
	case 200:
		return text, nil
	default:
		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}
'''))
good('p24-ctx', (HCL, 'http.NewRequest("POST", ', 'http.NewRequestWithContext(context.Background(), http.MethodPost, '), (HCL, '	"bytes"\n', '	"bytes"\n	"context"\n'))
good('p24-url-var', (HCL, '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
''', '''	u := *c.baseURL
	base := c.baseURL.Path
	u.Path = path.Join(base, pathname)
	return (&u).String()
'''))

# ---- P14
MEX = 'database/mysql/mservice/explainer.go'
MRL = 'database/mysql/mmodel/explain_analyze_result_line.go'
MTRN = 'database/mysql/mmodel/explain_analyze_tree_node.go'
PTB = 'database/postgres/pservice/explain_analyze_tree_builder.go'
PRN = 'database/postgres/pmodel/explain_analyze_result_node.go'
PTRN = 'database/postgres/pmodel/explain_analyze_tree_node.go'
bad('p14-my-nested-pop-once', 'P14', (MEX, '''			for nodeStack.Size()-1 > nest {
				nodeStack.Pop()
			}
''', '''			if nodeStack.Size()-1 > nest {
				nodeStack.Pop()
			}
'''))
bad('p14-my-ge', 'P14', (MEX, '''			for nodeStack.Size()-1 > nest {''', '''			for nodeStack.Size() > nest {'''))
bad('p14-my-skip-actual', 'P14', (MEX, '''		if line == "" {
			continue''', '''		if line == "" || strings.Contains(line, "never executed") {
			continue'''))
bad('p14-my-nopush', 'P14', (MEX, '''		nodeStack.Push(n)
''', '''		if nest > 0 || l.TableName == "" {
			nodeStack.Push(n)
		}
'''))
bad('p14-my-dup', 'P14', (MEX, '''			nodeStack.Pop()
			for''', '''			nodeStack.Pop()
			root.Children = append(root.Children, n)
			for'''))
bad('p14-my-cost-swap', 'P14', (MRL, '''			resLine.EstimatedInitCost = null.FloatFrom(initCost)
			cost, err := strconv.ParseFloat(em[3], 64)''', '''			resLine.EstimatedInitCost = null.FloatFrom(initCost)
			cost, err := strconv.ParseFloat(em[1], 64)'''))
bad('p14-my-rows-loops', 'P14', (MRL, 'strconv.ParseInt(am[4], 10, 64)', 'strconv.ParseInt(am[3], 10, 64)'))
bad('p14-my-zero-rows', 'P14', (MRL, '''		resLine.ActualReturnedRows = null.IntFrom(rowNum)
''', '''		if rowNum > 0 {
			resLine.ActualReturnedRows = null.IntFrom(rowNum)
		}
'''))
bad('p14-my-32bit', 'P14', (MRL, '''strconv.ParseInt(am[3], 10, 64)''', '''strconv.ParseInt(am[3], 10, 32)'''))
bad('p14-my-regexp-int', 'P14', (MRL, r'''\(actual time=([\d.]+?)\.\.([\d.]+?) rows''', r'''\(actual time=([\d.]+?)\.\.([\d]+?) rows'''))
bad('p14-my-nest-2', 'P14', (MRL, '''len(pim) / 4''', '''len(pim) / 8'''))
bad('p14-my-vm-swap', 'P14', (MTRN, '''		ActualTimeAvg:         n.AnalyzeResultLine.ActualTimeAvg,''', '''		ActualTimeAvg:         n.AnalyzeResultLine.ActualTimeFirstRow,'''))
bad('p14-my-vm-child', 'P14', (MTRN, '''	for _, c := range n.Children {
		vm''', '''	for _, c := range n.Children {
		if c.AnalyzeResultLine.ActualLoopCount.ValueOrZero() == 0 {
			continue
		}
		vm'''))
bad('p14-pg-lt', 'P14', (PTB, '''Top().SpaceSize >= spaceSize''', '''Top().SpaceSize > spaceSize'''))
bad('p14-pg-le', 'P14', (PTB, '''Top().SpaceSize < spaceSize''', '''Top().SpaceSize <= spaceSize'''))
bad('p14-pg-flush-lost', 'P14', (PTB, '''				if len(nodeLines) > 0 {
					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineArrow''', '''				nodeLines = nil
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineArrow'''))
bad('p14-pg-noreset', 'P14', (PTB, '''					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
		}
		if''', '''					lineNodes = append(lineNodes, nodeLines)
				}
			}
		}
		if'''))
bad('p14-pg-info-lost', 'P14', (PTB, '''			if infoRowReg.MatchString(line) {
				nodeLines = append(nodeLines, line)
				continue''', '''			if infoRowReg.MatchString(line) {
				if len(nodeLines) < 10 {
					nodeLines = append(nodeLines, line)
				}
				continue'''))
bad('p14-pg-break', 'P14', (PTB, '''		if summaryReg.MatchString(line) {
''', '''		if summaryReg.MatchString(line) || line == "" {
'''))
bad('p14-pg-summary', 'P14', (PTB, 'explainLines[summaryStartLine:]', 'explainLines[summaryStartLine+1:]'))
bad('p14-pg-width', 'P14', (PRN, '''strconv.ParseInt(em[4], 10, 64)''', '''strconv.ParseInt(em[3], 10, 64)'''))
bad('p14-pg-metric-first', 'P14', (PRN, '''	mLine := getMetricLine(lines)
	// c.f''', '''	mLine := lines[0]
	// c.f'''))
bad('p14-pg-indent-last', 'P14', (PRN, 'FindString(lines[0])', 'FindString(lines[len(lines)-1])'))
bad('p14-pg-text', 'P14', (PTRN, 'strings.Join(n.AnalyzeResultNode.Lines, "\\n")', 'n.AnalyzeResultNode.Lines[0] + strings.Join(nil, "\\n")'))
bad('p14-pg-vm-swap', 'P14', (PTRN, '''EstimatedCost:         n.AnalyzeResultNode.EstimatedCost''', '''EstimatedCost:         n.AnalyzeResultNode.EstimatedInitCost'''))
bad('p14-pg-vm-child', 'P14', (PTRN, '''	for _, c := range n.Children {
		vm''', '''	for i, c := range n.Children {
		if i > 100 {
			break
		}
		vm'''))

good('p14-my-simple-nest', (MEX, '''		if nodeStack.Size()-1 == nest {
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else if nodeStack.Size()-1 > nest {
			nodeStack.Pop()
			for nodeStack.Size()-1 > nest {
				nodeStack.Pop()
			}
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {
			return nil, errors.New("invalid result from EXPLAIN ANALYZE")
		}
''', '''		if nodeStack.Size() <= nest {
			return nil, errors.New("invalid result from EXPLAIN ANALYZE")
		}
		for nodeStack.Size() > nest+1 {
			nodeStack.Pop()
		}
		parent := nodeStack.Top()
		parent.Children = append(parent.Children, n)
'''))
good('p14-my-addchild', (MEX, '''			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else if''', '''			nodeStack.Top().AddChild(n)
		} else if'''), (MEX, '''			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {''', '''			nodeStack.Top().AddChild(n)
		} else {'''), (MTRN, '''func (n *ExplainAnalyzeTreeNode) TableName()''', '''func (n *ExplainAnalyzeTreeNode) AddChild(c *ExplainAnalyzeTreeNode) {
	n.Children = append(n.Children, c)
}

func (n *ExplainAnalyzeTreeNode) TableName()'''))
good('p14-my-split-parse', (MRL, '''	// c.f.) https://github.com/mysql/mysql-server/blob/6846e6b2f72931991cc9fd589dc9946ea2ab58c9/sql/iterators/timing_iterator.h#L159
	am :=''', '''	if err := resLine.parseActual(line); err != nil {
		return 0, nil, err
	}

	pim := prefixIndentReg.FindString(line)
	nestSize := len(pim) / 4
	return nestSize, resLine, nil
}

func (resLine *ExplainAnalyzeResultLine) parseActual(line string) error {
	// c.f.) https://github.com/mysql/mysql-server/blob/6846e6b2f72931991cc9fd589dc9946ea2ab58c9/sql/iterators/timing_iterator.h#L159
	am :='''), (MRL, '''		resLine.ActualLoopCount = null.IntFrom(loopNum)
	}

	pim := prefixIndentReg.FindString(line)
	nestSize := len(pim) / 4
	return nestSize, resLine, nil
''', '''		resLine.ActualLoopCount = null.IntFrom(loopNum)
	}
	return nil
'''), *[(MRL, 'return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%%s): %%s", am[%d], line))' % i, 'return errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%%s): %%s", am[%d], line))' % i) for i in (1,2,3,4)])
good('p14-my-parse-helper', (MRL, '''		rowNum, err := strconv.ParseInt(am[3], 10, 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[3], line))
		}
		resLine.ActualReturnedRows = null.IntFrom(rowNum)

		loopNum, err := strconv.ParseInt(am[4], 10, 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[4], line))
		}
		resLine.ActualLoopCount = null.IntFrom(loopNum)
''', '''		if resLine.ActualReturnedRows, err = parseNullInt(am[3], line); err != nil {
			return 0, nil, err
		}
		if resLine.ActualLoopCount, err = parseNullInt(am[4], line); err != nil {
			return 0, nil, err
		}
'''), (MRL, '''func extractTable''', '''func parseNullInt(s, line string) (null.Int, error) {
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return null.Int{}, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", s, line))
	}
	return null.IntFrom(v), nil
}

func extractTable'''))
good('p14-pg-simple-nest', (PTB, '''		if nodeStack.Top().SpaceSize < spaceSize {
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {
			nodeStack.Pop()
			for nodeStack.Top().SpaceSize >= spaceSize {
				nodeStack.Pop()
			}
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		}
''', '''		for nodeStack.Top().SpaceSize >= spaceSize {
			nodeStack.Pop()
		}
		currentNode := nodeStack.Top()
		currentNode.Children = append(currentNode.Children, n)
'''))
good('p14-pg-find-parent', (PTB, '''		if nodeStack.Top().SpaceSize < spaceSize {
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {
			nodeStack.Pop()
			for nodeStack.Top().SpaceSize >= spaceSize {
				nodeStack.Pop()
			}
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		}
''', '''		currentNode := erb.findParent(nodeStack, spaceSize)
		currentNode.Children = append(currentNode.Children, n)
'''), (PTB, '''var arrowRowReg''', '''func (erb *ExplainAnalyzeTreeBuilder) findParent(s *lib.Stack[pmodel.ExplainAnalyzeTreeNode], spaceSize int) *pmodel.ExplainAnalyzeTreeNode {
	for s.Top().SpaceSize >= spaceSize {
		s.Pop()
	}
	return s.Top()
}

var arrowRowReg'''))
good('p14-pg-flush-helper', (PTB, '''				if len(nodeLines) > 0 {
					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineArrow''', '''				lineNodes, nodeLines = flush(lineNodes, nodeLines)
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineArrow'''), (PTB, '''func (erb *ExplainAnalyzeTreeBuilder) group''', '''func flush(nodes [][]string, lines []string) ([][]string, []string) {
	if len(lines) > 0 {
		nodes = append(nodes, lines)
	}
	return nodes, nil
}

func (erb *ExplainAnalyzeTreeBuilder) group'''))
good('p14-pg-switch', (PTB, '''		if infoRowReg.MatchString(line) {
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineInfo
		} else if arrowRowReg.MatchString(line) {
			if prevLineType == analyzeLineArrow {
				if len(nodeLines) > 0 {
					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineArrow
		} else {
			if len(nodeLines) > 0 {
				lineNodes = append(lineNodes, nodeLines)
				nodeLines = nil
			}
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLinePlanName
		}
''', '''		switch {
		case infoRowReg.MatchString(line):
			prevLineType = analyzeLineInfo
		case arrowRowReg.MatchString(line):
			if prevLineType == analyzeLineArrow && len(nodeLines) > 0 {
				lineNodes = append(lineNodes, nodeLines)
				nodeLines = nil
			}
			prevLineType = analyzeLineArrow
		default:
			if len(nodeLines) > 0 {
				lineNodes = append(lineNodes, nodeLines)
				nodeLines = nil
			}
			prevLineType = analyzeLinePlanName
		}
		nodeLines = append(nodeLines, line)
'''))
good('p14-pg-metric-inline', (PRN, '''	mLine := getMetricLine(lines)
	// c.f''', '''	mLine := ""
	for _, line := range lines {
		if metricLineReg.MatchString(line) {
			mLine = line
			break
		}
	}
	// c.f'''))
good('p14-pg-vm-local', (PTRN, '''	text := strings.Join(n.AnalyzeResultNode.Lines, "\\n")

	vm := ''', '''	rn := n.AnalyzeResultNode
	text := strings.Join(rn.Lines, "\\n")

	vm := '''), (PTRN, 'EstimatedInitCost:     n.AnalyzeResultNode.', 'EstimatedInitCost:     rn.'))
good('p14-pg-vm-make', (PTRN, '''	for _, c := range n.Children {
		vm.Children = append(vm.Children, c.ToViewModel())
	}
''', '''	children := make([]*viewmodel.VmPostgresExplainAnalyzeNode, 0, len(n.Children))
	for i := range n.Children {
		children = append(children, n.Children[i].ToViewModel())
	}
	vm.Children = children
'''))
good('p14-summary-idx', (PTB, '''	sLine := ""
	if summaryStartLine > 0 {
		sLine = strings.Join(explainLines[summaryStartLine:], "\\n")
	}

	return lineNodes, sLine
''', '''	if summaryStartLine <= 0 {
		return lineNodes, ""
	}
	return lineNodes, strings.Join(explainLines[summaryStartLine:], "\\n")
'''))

# ---- P18
JCMD = 'cmd/app/dig/jaeger.go'
TF = 'otel/jaeger/trace_fetcher.go'
JIC = 'infra/jaeger/client.go'
LTM = 'lib/time.go'
bad('p18-default-12h', 'P18', (JCMD, 'now.Add(-24 * time.Hour)', 'now.Add(-12 * time.Hour)'))
bad('p18-start-ignored', 'P18', (JCMD, '''		jr.start, err = time.Parse(time.RFC3339, jr.startStr)
''', '''		_, err = time.Parse(time.RFC3339, jr.startStr)
		jr.start = now.Add(-24 * time.Hour)
'''))
bad('p18-end-12h', 'P18', (JCMD, 'jr.end = jr.start.Add(24 * time.Hour)', 'jr.end = jr.start.Add(12 * time.Hour)'))
bad('p18-end-now', 'P18', (JCMD, 'if jr.end.After(now) {', 'if jr.end.Before(now) {'))
bad('p18-parse-layout', 'P18', (JCMD, 'time.Parse(time.RFC3339, jr.startStr)', 'time.Parse(time.RFC1123, jr.startStr)'))
bad('p18-addr', 'P18', (JCMD, 'lib.GetEnv("JAEGER_GRPC_ADDRESS")', 'lib.GetEnv("JAEGER_UI_URL")'))
bad('p18-max-short', 'P18', (TF, 'start.Add(interval).Unix()', 'start.Add(interval - time.Second).Unix()'))
bad('p18-max-long', 'P18', (TF, 'start.Add(interval).Unix()', 'start.Add(2 * interval).Unix()'))
bad('p18-count', 'P18', (JCMD, 'int32(jr.count)', 'int32(jr.sameServiceThreshold)'))
bad('p18-dur-secs', 'P18', (TF, '''		Seconds: secs,
		Nanos:   nanos,
''', '''		Seconds: secs,
		Nanos:   nanos / 1000,
'''))
bad('p18-dur-unit', 'P18', (JCMD, 'time.Duration(jr.durationMilli)*time.Millisecond', 'time.Duration(jr.durationMilli)*time.Microsecond'))
bad('p18-skip-window', 'P18', (TF, '''		res = append(res, trees...)
''', '''		if len(trees) < int(size) {
			res = append(res, trees...)
		}
'''))
bad('p18-break-empty', 'P18', (TF, '''		res = append(res, trees...)
''', '''		if len(trees) == 0 {
			break
		}
		res = append(res, trees...)
'''))
bad('p18-replace', 'P18', (TF, '''		res = append(res, trees...)
''', '''		res = trees
'''))
bad('p18-recv-limit', 'P18', (JIC, '''		traces = append(traces, &Trace{Spans: spans})
''', '''		traces = append(traces, &Trace{Spans: spans})
		if len(traces) >= int(param.NumTraces) {
			break
		}
'''))
bad('p18-recv-skip-empty', 'P18', (JIC, '''		traces = append(traces, &Trace{Spans: spans})
''', '''		if len(spans) > 1 {
			traces = append(traces, &Trace{Spans: spans})
		}
'''))
bad('p18-recv-once', 'P18', (JIC, '''			if errors.Is(err, io.EOF) {
				break
			}
			return nil, errors.Wrap(err, "failed to receive result to find traces")''', '''			if errors.Is(err, io.EOF) || len(traces) > 0 {
				break
			}
			return nil, errors.Wrap(err, "failed to receive result to find traces")'''))
bad('p18-ranges-skip', 'P18', (LTM, '''	for t := start; t.Before(end); t = t.Add(interval) {
		res''', '''	for t := start; t.Add(interval).Before(end); t = t.Add(interval) {
		res'''))
bad('p18-ranges-double', 'P18', (TF, 'lib.GenerateTimeRanges(start, end, interval)', 'lib.GenerateTimeRanges(start, end, 2*interval)'))
bad('p18-ranges-norm', 'P18', (TF, 'lib.GenerateTimeRanges(start, end, interval)', 'lib.GenerateTimeRanges(start.Add(interval), end, interval)'))
bad('p18-opname', 'P18', (TF, '''			NumTraces:    size,''', '''			NumTraces:    size,
			OperationName: serviceName,'''))
bad('p18-pick-first', 'P18', ('otel/jaeger/trace_picker.go', '''	for _, tree := range tp.traces {
		slowTraces.Push(tree)
	}''', '''	for _, tree := range tp.traces {
		if tree.Root.Duration() > 1000*1000*1000 {
			slowTraces.Push(tree)
		}
	}'''))
bad('p18-env-default', 'P18', (JCMD, '''	grpcAddress, err := lib.GetEnv("JAEGER_GRPC_ADDRESS")
	if err != nil {
		return err
	}
''', '''	grpcAddress, err := lib.GetEnv("JAEGER_GRPC_ADDRESS")
	if err != nil && jr.startStr == "" {
		return err
	}
'''))

good('p18-const', (TF, 'interval := 30 * time.Minute', 'interval := fetchInterval'), (TF, 'type TraceFetcher struct', 'const fetchInterval = time.Hour / 2\n\ntype TraceFetcher struct'))
good('p18-hour', (TF, 'interval := 30 * time.Minute', 'interval := time.Hour'))
good('p18-inline-loop', (TF, '''	times := lib.GenerateTimeRanges(start, end, interval)
	for _, start := range times {
''', '''	for current := start; current.Before(end); current = current.Add(interval) {
		start := current
'''), (TF, '	"github.com/mrasu/GravityR/lib"\n', ''))
good('p18-after', (LTM, 't.Before(end)', 'end.After(t)'))
good('p18-build-param', (TF, '''		param := &api_v3.TraceQueryParameters{
			ServiceName:  serviceName,
			StartTimeMin: &types.Timestamp{Seconds: start.Unix()},
			StartTimeMax: &types.Timestamp{Seconds: start.Add(interval).Unix()},
			NumTraces:    size,
			DurationMin:  tf.toProtoDuration(durationMin),
		}
''', '''		param := tf.buildParam(size, start, start.Add(interval), serviceName, durationMin)
'''), (TF, '''func (tf *TraceFetcher) toProtoDuration''', '''func (tf *TraceFetcher) buildParam(size int32, from, to time.Time, serviceName string, durationMin time.Duration) *api_v3.TraceQueryParameters {
	p := &api_v3.TraceQueryParameters{ServiceName: serviceName}
	p.StartTimeMin = toTimestamp(from)
	p.StartTimeMax = toTimestamp(to)
	p.NumTraces = size
	p.DurationMin = tf.toProtoDuration(durationMin)
	return p
}

func toTimestamp(t time.Time) *types.Timestamp {
	return &types.Timestamp{Seconds: t.Unix()}
}

func (tf *TraceFetcher) toProtoDuration'''))
good('p18-durproto', (TF, '''	secs := int64(duration.Truncate(time.Second).Seconds())
	nanos := int32(duration.Nanoseconds() - int64(time.Duration(secs)*time.Second))

	return &types.Duration{
		Seconds: secs,
		Nanos:   nanos,
	}
''', '''	return &types.Duration{
		Seconds: int64(duration / time.Second),
		Nanos:   int32(duration % time.Second),
	}
'''))
good('p18-durproto2', (TF, '''	secs := int64(duration.Truncate(time.Second).Seconds())
	nanos := int32(duration.Nanoseconds() - int64(time.Duration(secs)*time.Second))

	return &types.Duration{
		Seconds: secs,
		Nanos:   nanos,
	}
''', '''	return types.DurationProto(duration)
'''))
good('p18-min-end', (JCMD, '''	jr.end = jr.start.Add(24 * time.Hour)
	if jr.end.After(now) {
		jr.end = now
	}
''', '''	end := jr.start.Add(24 * time.Hour)
	if now.Before(end) {
		end = now
	}
	jr.end = end
'''))
good('p18-start-default-first', (JCMD, '''	if jr.startStr != "" {
		var err error
		jr.start, err = time.Parse(time.RFC3339, jr.startStr)
		if err != nil {
			return errors.Wrap(err, "invalid format at StartAt")
		}
	} else {
		jr.start = now.Add(-24 * time.Hour)
	}
''', '''	jr.start = now.Add(-24 * time.Hour)
	if jr.startStr != "" {
		var err error
		jr.start, err = time.Parse(time.RFC3339, jr.startStr)
		if err != nil {
			return errors.Wrap(err, "invalid format at StartAt")
		}
	}
'''))
good('p18-start-helper', (JCMD, '''	if jr.startStr != "" {
		var err error
		jr.start, err = time.Parse(time.RFC3339, jr.startStr)
		if err != nil {
			return errors.Wrap(err, "invalid format at StartAt")
		}
	} else {
		jr.start = now.Add(-24 * time.Hour)
	}
''', '''	start, err := parseStart(jr.startStr, now)
	if err != nil {
		return err
	}
	jr.start = start
'''), (JCMD, '''func (jr *jaegerRunner) run() error {''', '''func parseStart(s string, now time.Time) (time.Time, error) {
	if s == "" {
		return now.Add(-24 * time.Hour), nil
	}
	t, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return time.Time{}, errors.Wrap(err, "invalid format at StartAt")
	}
	return t, nil
}

func (jr *jaegerRunner) run() error {'''))
good('p18-recv-cond', (JIC, '''		chunk, err := resp.Recv()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, errors.Wrap(err, "failed to receive result to find traces")
		}
''', '''		chunk, err := resp.Recv()
		if err == io.EOF {
			return traces, nil
		}
		if err != nil {
			return nil, errors.Wrap(err, "failed to receive result to find traces")
		}
'''), (JIC, '''		traces = append(traces, &Trace{Spans: spans})
	}

	return traces, nil
''', '''		traces = append(traces, &Trace{Spans: spans})
	}
'''))
good('p18-convert-helper', (TF, '''	var compactedTrees []*omodel.TraceTree
	for _, trace := range traces {
		trees := ToTraceTrees(trace.Spans)
		for _, tree := range trees {
			compacted := tree.Compact()
			compactedTrees = append(compactedTrees, compacted)
		}
	}

	return compactedTrees, nil
''', '''	var compactedTrees []*omodel.TraceTree
	for i := range traces {
		compactedTrees = append(compactedTrees, compactAll(traces[i])...)
	}

	return compactedTrees, nil
'''), (TF, '''func (tf *TraceFetcher) toProtoDuration''', '''func compactAll(trace *jaeger.Trace) []*omodel.TraceTree {
	var res []*omodel.TraceTree
	for _, tree := range ToTraceTrees(trace.Spans) {
		res = append(res, tree.Compact())
	}
	return res
}

func (tf *TraceFetcher) toProtoDuration'''))

# ---------------------------------------------------------------- P19
PICMD = 'cmd/db/dig/performance_insights.go'
PSA = 'infra/aws/pi_sql_load_avg.go'
RDS = 'infra/aws/rds.go'
LTIME = 'lib/time.go'
HBO = 'html/build_option.go'
bad('p19-thirteen-windows', 'P19', (PICMD, 'i < 14', 'i < 13'))
bad('p19-current-not-reset', 'P19', (PICMD, '''	for _, db := range dbs {
		current := startFrom
''', '''	current := startFrom
	for _, db := range dbs {
'''))
bad('p19-overlap', 'P19', (PICMD, 'current = current.Add(12 * time.Hour)', 'current = current.Add(11 * time.Hour)'))
bad('p19-swap-lists', 'P19', (PICMD, 'NewPerformanceInsightsDataBuildOption(sqlDbLoads, tokenizedSqlDbLoads)', 'NewPerformanceInsightsDataBuildOption(tokenizedSqlDbLoads, sqlDbLoads)'))
bad('p19-swap-members', 'P19', (HBO, '''			SqlDbLoads:          sqlCpuUsages,
			TokenizedSqlDbLoads: tokenizedSqlCpuUsages,''', '''			SqlDbLoads:          sqlCpuUsages,
			TokenizedSqlDbLoads: sqlCpuUsages,'''))
bad('p19-append-wrong', 'P19', (PICMD, 'sqlLoadAvgs = append(sqlLoadAvgs, avgs...)', 'sqlLoadAvgs = append(tokenizedSqlLoadAvgs, avgs...)'))
bad('p19-overwrite', 'P19', (PICMD, 'sqlLoadAvgs = append(sqlLoadAvgs, avgs...)', 'sqlLoadAvgs = avgs'))
bad('p19-skip-empty-break', 'P19', (PICMD, '''			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
''', '''			if len(avgs) == 0 {
				break
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
'''))
bad('p19-skip-empty-continue', 'P19', (PICMD, '''			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
''', '''			if len(avgs) == 0 {
				continue
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
'''))
bad('p19-start-ignored', 'P19', (PICMD, '		startFrom = t\n', '		_ = t\n'))
bad('p19-start-six-days', 'P19', (PICMD, 'time.Now().Add(-7 * 24', 'time.Now().Add(-6 * 24'))
bad('p19-end-wrong', 'P19', (PICMD, 'end := startFrom.Add(7 * 24 * time.Hour)', 'end := startFrom.Add(6 * 24 * time.Hour)'))
bad('p19-window-short', 'P19', (PIF, 'start.Add(12 * time.Hour)', 'start.Add(12 * time.Hour - time.Minute)'))
bad('p19-group', 'P19', (PIF, 'pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)', 'pi.getHalfDayMetrics(db, start, sqlGroupName)'))
bad('p19-dimension', 'P19', (PIF, '"db.sql_tokenized.statement", "db.sql_tokenized.id"', '"db.sql_tokenized.id", "db.sql_tokenized.statement"'))
bad('p19-dimension2', 'P19', (PIF, '"db.sql.statement", "db.sql.tokenized_id"', '"db.sql.statement", "db.sql.id"'))
bad('p19-identifier', 'P19', (PIF, 'Identifier: &db.DbiResourceId', 'Identifier: &db.InstanceIdentifier'))
bad('p19-dbname', 'P19', (PIF, '			db.InstanceIdentifier,', '			db.DbiResourceId,'))
bad('p19-first-page', 'P19', (PIF, '''		metrics = append(metrics, output.MetricList...)
	}''', '''		metrics = append(metrics, output.MetricList...)
		break
	}'''))
bad('p19-last-page', 'P19', (PIF, 'metrics = append(metrics, output.MetricList...)', 'metrics = output.MetricList'))
bad('p19-drop-small', 'P19', (PIF, 'if *dp.Value == 0 {', 'if *dp.Value < 0.01 {'))
bad('p19-break-on-zero', 'P19', (PIF, '''			if *dp.Value == 0 {
				continue''', '''			if *dp.Value == 0 {
				break'''))
bad('p19-nil-value-break', 'P19', (PIF, '''			if dp.Value == nil {
				continue''', '''			if dp.Value == nil {
				break'''))
bad('p19-sql-missing', 'P19', (PIF, '		res = append(res, sla)\n', '''		if sla.SQL == "" {
			continue
		}
		res = append(res, sla)
'''))
bad('p19-return-early', 'P19', (PIF, '''		if m.Key.Dimensions == nil {
			continue''', '''		if m.Key.Dimensions == nil {
			return res'''))
bad('p19-engine', 'P19', (PICMD, '[]string{"mysql"}', '[]string{"postgres"}'))
bad('p19-filter-name', 'P19', (RDS, 'lib.Ptr("engine")', 'lib.Ptr("db-instance-id")'))
bad('p19-rds-first-page', 'P19', (RDS, 'for paginator.HasMorePages() {', 'if paginator.HasMorePages() {'))
bad('p19-rds-swap', 'P19', (RDS, 'InstanceIdentifier: aws.ToString(ins.DBInstanceIdentifier)', 'InstanceIdentifier: aws.ToString(ins.DBName)'))
bad('p19-rds-filter', 'P19', (RDS, '			res = append(res, &RdsDB{', '''			if aws.ToString(ins.DBInstanceStatus) != "available" {
				continue
			}
			res = append(res, &RdsDB{'''))
bad('p19-min', 'P19', (PSA, 'loadOfSql.LoadMax < v.Value', 'loadOfSql.LoadMax > v.Value'))
bad('p19-no-sum', 'P19', (PSA, 'loadOfSql.LoadSum += v.Value', 'loadOfSql.LoadSum = v.Value'))
bad('p19-sum-only-greater', 'P19', (PSA, '''						loadOfSql.LoadMax = v.Value
					}
					loadOfSql.LoadSum += v.Value
''', '''						loadOfSql.LoadMax = v.Value
						loadOfSql.LoadSum += v.Value
					}
'''))
bad('p19-no-break-double', 'P19', (PSA, '''			found := false
''', '''			found := len(dbLoad.Sqls) > 100
'''))
bad('p19-same-tokenized', 'P19', (PSA, 'loadOfSql.Sql == avg.SQL', 'loadOfSql.TokenizedId == avg.TokenizedId'))
bad('p19-local-hour', 'P19', (PSA, 'lib.NormalizeTimeByHour(v.Time.UTC())', 'lib.NormalizeTimeByHour(v.Time)'))
bad('p19-start-local', 'P19', (PSA, 'lib.NormalizeTimeByHour(start.UTC())', 'lib.NormalizeTimeByHour(start)'))
bad('p19-hour-round', 'P19', (PSA, 'lib.NormalizeTimeByHour(v.Time.UTC())', 'v.Time.UTC().Round(time.Hour)'))
bad('p19-by-sql-not-db', 'P19', (PSA, 'dbLoadMap[baseTime][avg.DbName]; !ok', 'dbLoadMap[baseTime][avg.SQL]; !ok'),
    (PSA, 'dbLoadMap[baseTime][avg.DbName] = dbLoad', 'dbLoadMap[baseTime][avg.SQL] = dbLoad'),
    (PSA, 'dbLoad := dbLoadMap[baseTime][avg.DbName]', 'dbLoad := dbLoadMap[baseTime][avg.SQL]'))
bad('p19-no-empty-hours', 'P19', (PSA, '''		} else {
			res = append(res, viewmodel.NewVmTimeDbLoad(target))
		}
''', '''		}
'''))
bad('p19-hours-early', 'P19', (PSA, 'for !target.After(end) {', 'for !target.After(end.Add(-time.Hour)) {'))
bad('p19-hour-minutes', 'P19', (LTIME, 't.Hour(), 0, 0, 0,', 't.Hour(), t.Minute(), 0, 0,'))
bad('p19-two-hours', 'P19', (PSA, 'target.Add(1 * time.Hour)', 'target.Add(2 * time.Hour)'))
good('p19-flip-max', (PSA, 'loadOfSql.LoadMax < v.Value', 'v.Value > loadOfSql.LoadMax'))
good('p19-math-max', (PSA, '''					if loadOfSql.LoadMax < v.Value {
						loadOfSql.LoadMax = v.Value
					}
''', '''					loadOfSql.LoadMax = math.Max(loadOfSql.LoadMax, v.Value)
'''), (PSA, 'import (\n', 'import (\n	"math"\n'))
good('p19-truncate', (PSA, 'lib.NormalizeTimeByHour(v.Time.UTC())', 'v.Time.UTC().Truncate(time.Hour)'))
good('p19-positive-guards', (PIF, '''			if dp.Timestamp == nil {
				continue
			}

			if dp.Value == nil {
				continue
			}
			if *dp.Value == 0 {
				continue
			}
			sla.Values = append(sla.Values, &PiTimeValue{
				Value: *dp.Value,
				Time:  *dp.Timestamp,
			})
''', '''			if dp.Timestamp == nil || dp.Value == nil || *dp.Value == 0 {
				continue
			}
			tv := &PiTimeValue{Time: *dp.Timestamp}
			tv.Value = *dp.Value
			sla.Values = append(sla.Values, tv)
'''))
good('p19-find-helper', (PSA, '''			found := false
			for _, loadOfSql := range dbLoad.Sqls {
				if loadOfSql.Sql == avg.SQL {
					if loadOfSql.LoadMax < v.Value {
						loadOfSql.LoadMax = v.Value
					}
					loadOfSql.LoadSum += v.Value

					found = true
					break
				}
			}

			if !found {
				dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
					Sql:         avg.SQL,
					LoadMax:     v.Value,
					LoadSum:     v.Value,
					TokenizedId: avg.TokenizedId,
				})
			}
''', '''			addLoad(dbLoad, avg, v)
'''), (PSA, 'func ConvertPi', '''func addLoad(dbLoad *viewmodel.VmDbLoad, avg *PiSQLLoadAvg, v *PiTimeValue) {
	for _, loadOfSql := range dbLoad.Sqls {
		if loadOfSql.Sql != avg.SQL {
			continue
		}
		if loadOfSql.LoadMax < v.Value {
			loadOfSql.LoadMax = v.Value
		}
		loadOfSql.LoadSum += v.Value
		return
	}
	dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
		Sql:         avg.SQL,
		LoadMax:     v.Value,
		LoadSum:     v.Value,
		TokenizedId: avg.TokenizedId,
	})
}

func ConvertPi'''))
good('p19-find-object', (PSA, '''			found := false
			for _, loadOfSql := range dbLoad.Sqls {
				if loadOfSql.Sql == avg.SQL {
					if loadOfSql.LoadMax < v.Value {
						loadOfSql.LoadMax = v.Value
					}
					loadOfSql.LoadSum += v.Value

					found = true
					break
				}
			}

			if !found {
				dbLoad.Sqls''', '''			if loadOfSql := findLoad(dbLoad.Sqls, avg.SQL); loadOfSql != nil {
				if loadOfSql.LoadMax < v.Value {
					loadOfSql.LoadMax = v.Value
				}
				loadOfSql.LoadSum += v.Value
			} else {
				dbLoad.Sqls'''), (PSA, 'func ConvertPi', '''func findLoad(sqls []*viewmodel.VmDbLoadOfSql, sql string) *viewmodel.VmDbLoadOfSql {
	for _, s := range sqls {
		if s.Sql == sql {
			return s
		}
	}
	return nil
}

func ConvertPi'''))
good('p19-maps-helper', (PSA, '''			if _, ok := sqlLoadMap[baseTime]; !ok {
				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
			}
			if _, ok := dbLoadMap[baseTime]; !ok {
				dbLoadMap[baseTime] = map[string]*viewmodel.VmDbLoad{}
			}
			load := sqlLoadMap[baseTime]
''', '''			load, ok := sqlLoadMap[baseTime]
			if !ok {
				load = viewmodel.NewVmTimeDbLoad(baseTime)
				sqlLoadMap[baseTime] = load
				dbLoadMap[baseTime] = map[string]*viewmodel.VmDbLoad{}
			}
'''))
good('p19-dbload-var', (PSA, '''			if _, ok := dbLoadMap[baseTime][avg.DbName]; !ok {
				dbLoad := viewmodel.NewVmDbLoad(avg.DbName)
				dbLoadMap[baseTime][avg.DbName] = dbLoad
				load.Databases = append(load.Databases, dbLoad)
			}
			dbLoad := dbLoadMap[baseTime][avg.DbName]
''', '''			loadsOfHour := dbLoadMap[baseTime]
			dbLoad, ok := loadsOfHour[avg.DbName]
			if !ok {
				dbLoad = viewmodel.NewVmDbLoad(avg.DbName)
				loadsOfHour[avg.DbName] = dbLoad
				load.Databases = append(load.Databases, dbLoad)
			}
'''))
good('p19-hours-var', (PSA, '''		if l, ok := sqlLoadMap[target]; ok {
			res = append(res, l)
		} else {
			res = append(res, viewmodel.NewVmTimeDbLoad(target))
		}
		target = target.Add(1 * time.Hour)
''', '''		l, ok := sqlLoadMap[target]
		if !ok {
			l = viewmodel.NewVmTimeDbLoad(target)
		}
		res = append(res, l)
		target = target.Add(time.Hour)
'''))
good('p19-hours-for', (PSA, '''	target := lib.NormalizeTimeByHour(start.UTC())
	var res []*viewmodel.VmTimeDbLoad
	for !target.After(end) {
''', '''	var res []*viewmodel.VmTimeDbLoad
	for target := lib.NormalizeTimeByHour(start.UTC()); !target.After(end); target = target.Add(time.Hour) {
'''), (PSA, '		target = target.Add(1 * time.Hour)\n', ''))
good('p19-window-loop', (PICMD, '''		current := startFrom
		for i := 0; i < 14; i++ {
''', '''		for current := startFrom; current.Before(end); current = current.Add(12 * time.Hour) {
'''), (PICMD, '''
			current = current.Add(12 * time.Hour)
''', ''))
good('p19-fetch-helper', (PICMD, '''			avgs, err := piCli.GetHalfDaySqlMetrics(db, current)
			if err != nil {
				return err
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)

			tAvgs, err := piCli.GetHalfDayTokenizedSqlMetrics(db, current)
			if err != nil {
				return err
			}
			tokenizedSqlLoadAvgs''', '''			avgs, tAvgs, err := pr.fetch(piCli, db, current)
			if err != nil {
				return err
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
			tokenizedSqlLoadAvgs'''), (PICMD, 'func (pr *piRunner) dig', '''func (pr *piRunner) fetch(piCli *aws.PerformanceInsights, db *aws.RdsDB, at time.Time) ([]*aws.PiSQLLoadAvg, []*aws.PiSQLLoadAvg, error) {
	avgs, err := piCli.GetHalfDaySqlMetrics(db, at)
	if err != nil {
		return nil, nil, err
	}
	tAvgs, err := piCli.GetHalfDayTokenizedSqlMetrics(db, at)
	if err != nil {
		return nil, nil, err
	}
	return avgs, tAvgs, nil
}

func (pr *piRunner) dig'''))
good('p19-parse-start-helper', (PICMD, '''	startFrom := time.Now().Add(-7 * 24 * time.Hour)
	if pr.start != "" {
		t, err := time.Parse(time.RFC3339, pr.start)
		if err != nil {
			return errors.Wrap(err, "Invalid format")
		}
		startFrom = t
	}
''', '''	startFrom, err := pr.startFrom()
	if err != nil {
		return err
	}
'''), (PICMD, 'func (pr *piRunner) dig', '''func (pr *piRunner) startFrom() (time.Time, error) {
	if pr.start == "" {
		return time.Now().Add(-7 * 24 * time.Hour), nil
	}
	t, err := time.Parse(time.RFC3339, pr.start)
	if err != nil {
		return time.Time{}, errors.Wrap(err, "Invalid format")
	}
	return t, nil
}

func (pr *piRunner) dig'''))
good('p19-rds-helper', (RDS, '''			res = append(res, &RdsDB{
				InstanceIdentifier: aws.ToString(ins.DBInstanceIdentifier),
				DbiResourceId:      aws.ToString(ins.DbiResourceId),
			})
''', '''			res = append(res, newRdsDB(ins))
'''), (RDS, 'func (rds *Rds) GetDBs', '''func newRdsDB(ins types.DBInstance) *RdsDB {
	return &RdsDB{
		InstanceIdentifier: aws.ToString(ins.DBInstanceIdentifier),
		DbiResourceId:      aws.ToString(ins.DbiResourceId),
	}
}

func (rds *Rds) GetDBs'''))
good('p19-metric-helper', (PIF, '''		sla := NewPiSQLLoadAvg(
			db.InstanceIdentifier,
			m.Key.Dimensions[sqlKey],
			m.Key.Dimensions[tokenizedIdKey],
		)
		res = append(res, sla)

		for _, dp := range m.DataPoints {''', '''		sla := NewPiSQLLoadAvg(
			db.InstanceIdentifier,
			m.Key.Dimensions[sqlKey],
			m.Key.Dimensions[tokenizedIdKey],
		)
		sla.Values = toTimeValues(m.DataPoints)
		res = append(res, sla)
	}

	return res
}

func toTimeValues(points []types.DataPoint) []*PiTimeValue {
	var values []*PiTimeValue
	{
		for _, dp := range points {'''), (PIF, '''			sla.Values = append(sla.Values, &PiTimeValue{
				Value: *dp.Value,
				Time:  *dp.Timestamp,
			})
		}
	}

	return res
''', '''			values = append(values, &PiTimeValue{
				Value: *dp.Value,
				Time:  *dp.Timestamp,
			})
		}
	}

	return values
'''))

# ---------------------------------------------------------------- P23
V1C = 'otel/jaeger/v1_converter.go'
OSP = 'otel/omodel/span.go'
OTT = 'otel/omodel/trace_tree.go'
OTC = 'otel/omodel/trace_compacter.go'
bad('p23-orphan-dropped', 'P23', (V1C, '''		} else {
			roots = append(roots, h.span)
		}
	}
''', '''		}
	}
'''))
bad('p23-orphan-not-from-root', 'P23', (V1C, '''			roots = append(roots, h.span)
			continue
''', '''			if len(roots) == 0 {
				roots = append(roots, h.span)
			}
			continue
'''))
bad('p23-first-service', 'P23', (V1C, 'c.toOmodelSpan(span, rSpan)', 'c.toOmodelSpan(span, resourceSpans[0])'))
bad('p23-service-any-key', 'P23', (V1C, 'r.Key == string(semconv.ServiceNameKey)', 'r.Key == string(semconv.ServiceNamespaceKey)'))
bad('p23-start-end', 'P23', (V1C, 'EndTimeUnixNano:   s.EndTimeUnixNano,', 'EndTimeUnixNano:   s.StartTimeUnixNano,'))
bad('p23-copy-end', 'P23', (OSP, 'EndTimeUnixNano:   s.EndTimeUnixNano,', 'EndTimeUnixNano:   s.StartTimeUnixNano,'))
bad('p23-copy-no-attrs', 'P23', (OSP, '		SpanAttributes:    s.SpanAttributes,\n', ''))
bad('p23-first-lib-only', 'P23', (V1C, '''				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
			}
''', '''				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
			}
			break
'''))
bad('p23-skip-unnamed', 'P23', (V1C, '''				id := string(span.SpanId)
''', '''				if span.Name == "" {
					continue
				}
				id := string(span.SpanId)
'''))
bad('p23-file-by-parent', 'P23', (V1C, '				spanIdMap[id] = &spanHolder', '				spanIdMap[string(span.TraceId)] = &spanHolder'))
bad('p23-no-parent-link', 'P23', (V1C, '			h.span.Parent = parent.span\n', ''))
bad('p23-parent-self', 'P23', (V1C, '			h.span.Parent = parent.span\n', '			parent.span.Parent = h.span\n'))
bad('p23-twice', 'P23', (V1C, '''			roots = append(roots, h.span)
			continue
''', '''			roots = append(roots, h.span)
'''))
bad('p23-sort-end', 'P23', (OSP, 's.Children[i].StartTimeUnixNano < s.Children[j].StartTimeUnixNano', 's.Children[i].EndTimeUnixNano < s.Children[j].EndTimeUnixNano'))
bad('p23-sort-desc', 'P23', (OSP, 's.Children[i].StartTimeUnixNano < s.Children[j].StartTimeUnixNano', 's.Children[i].StartTimeUnixNano > s.Children[j].StartTimeUnixNano'))
bad('p23-sort-top-only', 'P23', (OSP, '''	for _, c := range s.Children {
		c.SortChildren()
	}
''', '''	for _, c := range s.Children {
		c.SortChildren()
		break
	}
'''))
bad('p23-sort-pairs', 'P23', (OSP, '''	sort.SliceStable(s.Children''', '''	if len(s.Children) < 3 {
		return
	}
	sort.SliceStable(s.Children'''))
bad('p23-view-seconds', 'P23', (OSP, 'int(s.EndTimeUnixNano / 1000 / 1000)', 'int(s.EndTimeUnixNano / 1000 / 1000 / 1000)'))
bad('p23-view-end', 'P23', (OSP, 'EndTimeMillis:   int(s.EndTimeUnixNano', 'EndTimeMillis:   int(s.StartTimeUnixNano'))
bad('p23-view-traceid', 'P23', (OSP, 'fmt.Sprintf("%x", s.SpanId)', 'fmt.Sprintf("%x", s.TraceId)'))
bad('p23-view-decimal', 'P23', (OSP, 'fmt.Sprintf("%x", s.SpanId)', 'fmt.Sprintf("%d", s.SpanId)'))
bad('p23-trace-id', 'P23', (OTT, 'fmt.Sprintf("%x", tt.Root.TraceId)', 'fmt.Sprintf("%x", tt.Root.SpanId)'))
bad('p23-view-children-filter', 'P23', (OSP, '''	children := lo.Map(s.Children, ''', '''	children := lo.Map(lo.Filter(s.Children, func(c *Span, _ int) bool { return c.Name != "" }), '''))
bad('p23-view-grandchildren', 'P23', (OSP, 'lo.Map(s.Children, func(c *Span, _ int) *viewmodel.VmOtelTraceSpan { return c.ToViewModel() })', 'lo.Map(s.Children, func(c *Span, i int) *viewmodel.VmOtelTraceSpan { return s.Children[0].ToViewModel() })'))
bad('p23-underflow', 'P23', (OSP, '	if lastEndTime < s.EndTimeUnixNano {\n		consumedTime += s.EndTimeUnixNano - lastEndTime\n	}', '	consumedTime += s.EndTimeUnixNano - lastEndTime'))
bad('p23-underflow2', 'P23', (OSP, '		if lastEndTime < t[0] {\n			consumedTime += t[0] - lastEndTime\n		}', '		if lastEndTime != t[0] {\n			consumedTime += t[0] - lastEndTime\n		}'))
bad('p23-label', 'P23', (OTC, 'span.GetDBSystem(), newParent.ServiceName)', 'newParent.ServiceName, span.GetDBSystem())'))
bad('p23-attr-filter', 'P23', (V1C, '''		attrs[attr.Key] = c.toAnyValue(attr.Value)
''', '''		if attr.Value == nil {
			break
		}
		attrs[attr.Key] = c.toAnyValue(attr.Value)
'''))
bad('p23-root-first-byte', 'P23', (V1C, '''	for _, b := range span.ParentSpanId {
		if b != 0 {
			return false
		}
	}
	return true
''', '''	return len(span.ParentSpanId) == 0 || span.ParentSpanId[0] != 0
'''))
good('p23-root-empty', (V1C, '''	for _, b := range span.ParentSpanId {
		if b != 0 {
			return false
		}
	}
	return true
''', '''	isRoot := true
	for _, b := range span.ParentSpanId {
		if b != 0 {
			isRoot = false
			break
		}
	}
	return isRoot
'''))
good('p23-invert-branches', (V1C, '''		if parent, ok := spanIdMap[string(h.orig.ParentSpanId)]; ok {
			parent.span.Children = append(parent.span.Children, h.span)
			h.span.Parent = parent.span
		} else {
			roots = append(roots, h.span)
		}
''', '''		parent, ok := spanIdMap[string(h.orig.ParentSpanId)]
		if !ok {
			roots = append(roots, h.span)
			continue
		}
		h.span.Parent = parent.span
		parent.span.Children = append(parent.span.Children, h.span)
'''))
good('p23-attach-helper', (V1C, '''			parent.span.Children = append(parent.span.Children, h.span)
			h.span.Parent = parent.span
''', '''			attach(parent.span, h.span)
'''), (V1C, 'func (c *v1Converter) isRootSpan', '''func attach(parent, child *omodel.Span) {
	parent.Children = append(parent.Children, child)
	child.Parent = parent
}

func (c *v1Converter) isRootSpan'''))
good('p23-sort-loop', (V1C, '	"github.com/samber/lo"\n', ''), (V1C, '''	return lo.Map(roots, func(root *omodel.Span, _ int) *omodel.TraceTree {
		root.SortChildren()
		return omodel.NewTraceTree(root)
	})
''', '''	trees := make([]*omodel.TraceTree, 0, len(roots))
	for _, root := range roots {
		root.SortChildren()
		trees = append(trees, omodel.NewTraceTree(root))
	}
	return trees
'''))
good('p23-service-helper', (V1C, '''	serviceName := ""
	if rs.Resource != nil {
		for _, r := range rs.Resource.Attributes {
			if r.Key == string(semconv.ServiceNameKey) {
				serviceName = r.Value.GetStringValue()
				break
			}
		}
	}
''', '''	serviceName := serviceNameOf(rs)
'''), (V1C, 'func (c *v1Converter) isRootSpan', '''func serviceNameOf(rs *v1Trace.ResourceSpans) string {
	if rs.Resource == nil {
		return ""
	}
	for _, r := range rs.Resource.Attributes {
		if r.Key == string(semconv.ServiceNameKey) {
			return r.Value.GetStringValue()
		}
	}
	return ""
}

func (c *v1Converter) isRootSpan'''))
good('p23-collect-helper', (V1C, '''				id := string(span.SpanId)
				if _, ok := spanIdMap[id]; !ok {
					spanIds = append(spanIds, id)
				}
				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
''', '''				holder := &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
				id := string(holder.orig.SpanId)
				if spanIdMap[id] == nil {
					spanIds = append(spanIds, id)
				}
				spanIdMap[id] = holder
'''))
good('p23-view-loop', (OSP, '	"github.com/samber/lo"\n', ''), (OSP, '''	children := lo.Map(s.Children, func(c *Span, _ int) *viewmodel.VmOtelTraceSpan { return c.ToViewModel() })
''', '''	children := make([]*viewmodel.VmOtelTraceSpan, 0, len(s.Children))
	for _, c := range s.Children {
		children = append(children, c.ToViewModel())
	}
'''))
good('p23-millis-helper', (OSP, 'int(s.StartTimeUnixNano / 1000 / 1000)', 'toMillis(s.StartTimeUnixNano)'), (OSP, 'int(s.EndTimeUnixNano / 1000 / 1000)', 'toMillis(s.EndTimeUnixNano)'),
     (OSP, 'func (s *Span) IsSame', '''func toMillis(nano uint64) int {
	return int(nano / 1000000)
}

func (s *Span) IsSame'''))
good('p23-duration-flip', (OSP, '''	if s.EndTimeUnixNano < s.StartTimeUnixNano {
		return 0
	}
	return s.EndTimeUnixNano - s.StartTimeUnixNano
''', '''	start, end := s.StartTimeUnixNano, s.EndTimeUnixNano
	if end >= start {
		return end - start
	}
	return 0
'''))
good('p23-copy-struct', (OSP, '''	return &Span{
		Parent:            nil,
		Name:              s.Name,
		TraceId:           s.TraceId,
		SpanId:            s.SpanId,
		StartTimeUnixNano: s.StartTimeUnixNano,
		EndTimeUnixNano:   s.EndTimeUnixNano,
		SpanAttributes:    s.SpanAttributes,
		ServiceName:       s.ServiceName,
		Children:          nil,
	}
''', '''	copied := *s
	copied.Parent = nil
	copied.Children = nil
	return &copied
'''))

# ---------------------------------------------------------------- P25
TPK = 'otel/jaeger/trace_picker.go'
HEAP = 'lib/heap.go'
SRC = 'otel/omodel/same_resource_count_visitor.go'
CIC = 'otel/omodel/compact_info_collect_visitor.go'
bad('p25-ge-threshold', 'P25', (TPK, '> threshold', '>= threshold'))
bad('p25-swap-thresholds', 'P25', (JCMD, '''		jr.durationMilli,
		jr.sameServiceThreshold,
''', '''		jr.sameServiceThreshold,
		jr.durationMilli,
'''))
bad('p25-ui-grpc', 'P25', (JCMD, '		jr.uiURL,\n', '		jr.grpcAddress,\n'))
bad('p25-swap-lists', 'P25', (JCMD, '''		slows,
		sameServices,
''', '''		sameServices,
		slows,
'''))
bad('p25-heap-flip', 'P25', (TPK, 'a1.Root.Duration() < a2.Root.Duration()', 'a1.Root.Duration() > a2.Root.Duration()'))
bad('p25-heap-start', 'P25', (TPK, 'a1.Root.Duration() < a2.Root.Duration()', 'a1.Root.StartTimeUnixNano < a2.Root.StartTimeUnixNano'))
bad('p25-heap-end', 'P25', (TPK, 'a1.Root.Duration() < a2.Root.Duration()', 'a1.Root.EndTimeUnixNano < a2.Root.EndTimeUnixNano'))
bad('p25-not-reversed', 'P25', (TPK, 'return lo.Reverse(slowTraces.PopAll())', 'return slowTraces.PopAll()'), (TPK, '	"github.com/samber/lo"\n', ''), (TPK, 'lo.Filter(tp.traces, func(tree *omodel.TraceTree, _ int) bool {\n		return tree.MaxSameServiceAccessCount() > threshold\n	})', 'filter(tp.traces, threshold)'), (TPK, 'func (tp *TracePicker) PickSlow', '''func filter(ts []*omodel.TraceTree, threshold int) []*omodel.TraceTree {
	var res []*omodel.TraceTree
	for _, t := range ts {
		if t.MaxSameServiceAccessCount() > threshold {
			res = append(res, t)
		}
	}
	return res
}

func (tp *TracePicker) PickSlow'''))
bad('p25-limit-ge', 'P25', (HEAP, 'h.h.Len() > h.limit', 'h.h.Len() >= h.limit'))
bad('p25-limit-10', 'P25', (JCMD, 'PickSlowTraces(100)', 'PickSlowTraces(10)'))
bad('p25-pop-first', 'P25', (HEAP, '''	heap.Push(h.h, x)
	if h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
''', '''	if h.h.Len() >= h.limit {
		heap.Pop(h.h)
	}
	heap.Push(h.h, x)
'''))
bad('p25-less-swapped', 'P25', (HEAP, 'h.less(h.vals[i], h.vals[j])', 'h.less(h.vals[j], h.vals[i])'))
bad('p25-popall-one-left', 'P25', (HEAP, 'for h.h.Len() > 0 {', 'for h.h.Len() > 1 {'))
bad('p25-count-min', 'P25', (SRC, 'lo.Max(', 'lo.Min('))
bad('p25-count-sum', 'P25', (SRC, 'lo.Max(', 'lo.Sum('))
bad('p25-count-by-name', 'P25', (SRC, 'span.ServiceName', 'span.Name'))
bad('p25-count-nonroot', 'P25', (SRC, '	service := span.ServiceName\n', '	if span.Parent == nil {\n		return\n	}\n	service := span.ServiceName\n'))
bad('p25-count-is-services', 'P25', (SRC, 'return lo.Max(lo.Values(v.visitedCounts))', 'return len(v.visitedCounts)'), (SRC, '''import (
	"github.com/samber/lo"
)
''', ''))
bad('p25-count-by-children', 'P25', (SRC, '+= 1', '+= len(span.Children)'))
bad('p25-visit-first-child', 'P25', (OTT, '''		tt.visitRecursive(v, c)
	}
''', '''		tt.visitRecursive(v, c)
		break
	}
'''))
bad('p25-visit-skip-leaf', 'P25', (OTT, '		tt.visitRecursive(v, c)\n', '		if len(c.Children) > 0 || c.Parent == nil {\n			tt.visitRecursive(v, c)\n		}\n'))
bad('p25-leave-early', 'P25', (OTT, '''	v.Enter(current)
	for _, c''', '''	v.Enter(current)
	v.Leave(current)
	for _, c'''), (OTT, '''	}
	v.Leave(current)
}''', '''	}
}'''))
bad('p25-never-pop', 'P25', (OTC, '	c.parentStack.Pop()\n', ''))
bad('p25-always-pop', 'P25', (OTC, '''	if !c.parentStack.Top().IsSame(span) {
		return
	}
''', ''))
bad('p25-pop-by-trace', 'P25', (OSP, 'bytes.Equal(s.TraceId, other.TraceId) && bytes.Equal(s.SpanId, other.SpanId)', 'bytes.Equal(s.TraceId, other.TraceId)'))
bad('p25-pop-by-name', 'P25', (OTC, '!c.parentStack.Top().IsSame(span)', 'c.parentStack.Top().Name != span.Name'))
bad('p25-keep-only-other', 'P25', (OTC, '''	if span.IsLastDbSpan() {
		return true
	}

	return false''', '''	return false'''))
bad('p25-keep-same-name', 'P25', (OTC, 'span.Parent.ServiceName != span.ServiceName', 'span.Parent.ServiceName != span.ServiceName && span.Parent.Name != span.Name'))
bad('p25-keep-any-db', 'P25', (OSP, '''	if len(s.Children) > 0 {
		return false
	}

''', ''))
bad('p25-keep-any-leaf', 'P25', (OSP, '''	_, ok := s.SpanAttributes[string(semconv.DBSystemKey)]
	return ok
''', '''	return true
'''))
bad('p25-leaf-one-child', 'P25', (OSP, 'if len(s.Children) > 0 {', 'if len(s.Children) > 1 {'))
bad('p25-no-label', 'P25', (OTC, 'if span.IsLastDbSpan() {\n		newParent', 'if span.IsLastDbSpan() && span.Parent != nil {\n		newParent'))
bad('p25-label-every-db', 'P25', (OTC, 'if span.IsLastDbSpan() {\n		newParent', 'if span.GetDBSystem() != "" {\n		newParent'))
bad('p25-push-original', 'P25', (OTC, 'c.parentStack.Push(newParent)', 'c.parentStack.Push(span)'))
bad('p25-push-nondb', 'P25', (OTC, '	c.parentStack.Push(newParent)\n', '	if span.Parent != nil && len(span.Children) > 3 {\n		return\n	}\n	c.parentStack.Push(newParent)\n'))
bad('p25-second-child', 'P25', (OTT, 'Root: top.Children[0]}', 'Root: top.Children[0].Children[0]}'))
bad('p25-most-last', 'P25', (CIC, 'maxTime < t ||', 'maxTime > t ||'))
bad('p25-most-by-name', 'P25', (CIC, 'v.serviceConsumedTime[span.ServiceName] +=', 'v.serviceConsumedTime[span.Name] +='))
bad('p25-most-overwrite', 'P25', (CIC, '+= span.Calc', '= span.Calc'))
bad('p25-most-keep-max', 'P25', (CIC, '			maxTime = t\n', '			if s != "" {\n				continue\n			}\n			maxTime = t\n'))
bad('p25-views-swapped', 'P25', (OTT, 'SameServiceAccessCount:   v.GetMaxResourceAccessCount(),', 'SameServiceAccessCount:   len(tt.Root.Children),'))

good('p25-filter-loop', (TPK, '''	return lo.Filter(tp.traces, func(tree *omodel.TraceTree, _ int) bool {
		return tree.MaxSameServiceAccessCount() > threshold
	})
''', '''	var picked []*omodel.TraceTree
	for _, tree := range tp.traces {
		if threshold < tree.MaxSameServiceAccessCount() {
			picked = append(picked, tree)
		}
	}
	return picked
'''))
good('p25-filter-helper', (TPK, '''		return tree.MaxSameServiceAccessCount() > threshold
	})
}
''', '''		return exceeds(tree, threshold)
	})
}

func exceeds(tree *omodel.TraceTree, threshold int) bool {
	count := tree.MaxSameServiceAccessCount()
	return !(count <= threshold)
}
'''))
good('p25-less-flip', (TPK, 'a1.Root.Duration() < a2.Root.Duration()', 'a2.Root.Duration() > a1.Root.Duration()'))
good('p25-const-limit', (JCMD, 'PickSlowTraces(100)', 'PickSlowTraces(maxSlowTraces)'), (JCMD, 'func (jr *jaegerRunner) prepare', 'const maxSlowTraces = 100\n\nfunc (jr *jaegerRunner) prepare'))
good('p25-limit-early-return', (HEAP, '''	if h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
''', '''	if h.h.Len() <= h.limit {
		return
	}
	heap.Pop(h.h)
'''))
good('p25-popall-reversed', (TPK, '	return lo.Reverse(slowTraces.PopAll())\n', '''	popped := slowTraces.PopAll()
	res := make([]*omodel.TraceTree, 0, len(popped))
	for i := len(popped) - 1; i >= 0; i-- {
		res = append(res, popped[i])
	}
	return res
'''))
good('p25-remains-or', (OTC, '''	if span.Parent == nil {
		return true
	}
	if span.Parent.ServiceName != span.ServiceName {
		return true
	}
	if span.IsLastDbSpan() {
		return true
	}

	return false''', '''	return span.Parent == nil || span.Parent.ServiceName != span.ServiceName || span.IsLastDbSpan()'''))
good('p25-remains-switch', (OTC, '''	if span.Parent == nil {
		return true
	}
	if span.Parent.ServiceName != span.ServiceName {
		return true
	}
	if span.IsLastDbSpan() {
		return true
	}

	return false''', '''	switch {
	case span.IsLastDbSpan():
		return true
	case span.Parent == nil:
		return true
	default:
		return !(span.ServiceName == span.Parent.ServiceName)
	}'''))
good('p25-enter-nested', (OTC, '''	if !c.remains(span) {
		return
	}

	newParent := span''', '''	if c.remains(span) {
		c.keep(span)
	}
}

func (c *traceCompacter) keep(span *Span) {
	newParent := span'''))
good('p25-copy-helper', (OTC, '''	newParent := span.ShallowCopyWithoutDependency()
	if span.IsLastDbSpan() {
		newParent.ServiceName = fmt.Sprintf("%s (%s)", span.GetDBSystem(), newParent.ServiceName)
	}
''', '''	newParent := c.copySpan(span)
'''), (OTC, 'func (c *traceCompacter) Leave', '''func (c *traceCompacter) copySpan(span *Span) *Span {
	copied := span.ShallowCopyWithoutDependency()
	if span.IsLastDbSpan() {
		copied.ServiceName = fmt.Sprintf("%s (%s)", span.GetDBSystem(), span.ServiceName)
	}
	return copied
}

func (c *traceCompacter) Leave'''))
good('p25-attach-helper', (OTC, '''	parent := c.parentStack.Top()
	if parent != nil {
		parent.Children = append(parent.Children, newParent)
	}

	c.parentStack.Push(newParent)
''', '''	c.attach(newParent)
}

func (c *traceCompacter) attach(span *Span) {
	if parent := c.parentStack.Top(); parent != nil {
		parent.Children = append(parent.Children, span)
	}
	c.parentStack.Push(span)
'''))
good('p25-leave-positive', (OTC, '''	if !c.parentStack.Top().IsSame(span) {
		return
	}

	c.parentStack.Pop()
''', '''	if top := c.parentStack.Top(); top.IsSame(span) {
		c.parentStack.Pop()
	}
'''))
good('p25-leave-remains', (OTC, '!c.parentStack.Top().IsSame(span)', '!c.remains(span)'))
good('p25-same-early', (OSP, '''	return bytes.Equal(s.TraceId, other.TraceId) && bytes.Equal(s.SpanId, other.SpanId)''', '''	if !bytes.Equal(s.SpanId, other.SpanId) {
		return false
	}
	return bytes.Equal(other.TraceId, s.TraceId)'''))
good('p25-leaf-eq', (OSP, '''	if len(s.Children) > 0 {
		return false
	}

	_, ok := s.SpanAttributes[string(semconv.DBSystemKey)]
	return ok
''', '''	_, ok := s.SpanAttributes[string(semconv.DBSystemKey)]
	return ok && len(s.Children) == 0
'''))
good('p25-count-inc', (SRC, '''	service := span.ServiceName
	v.visitedCounts[service] += 1
''', '''	v.visitedCounts[span.ServiceName]++
'''))
good('p25-count-loop', (SRC, '	return lo.Max(lo.Values(v.visitedCounts))', '''	max := 0
	for _, n := range v.visitedCounts {
		if n > max {
			max = n
		}
	}
	return max'''), (SRC, '''import (
	"github.com/samber/lo"
)
''', ''))
good('p25-most-continue', (CIC, '''		if maxTime < t || (maxTime == t && s < maxService) {
			maxService = s
			maxTime = t
		}
''', '''		if t < maxTime {
			continue
		}
		if t == maxTime && s >= maxService {
			continue
		}
		maxService, maxTime = s, t
'''))
good('p25-most-helper', (CIC, 'if maxTime < t || (maxTime == t && s < maxService) {', 'if better(t, maxTime, s, maxService) {'), (CIC, 'func (v *traceInfoCollectVisitor) GetMost', '''func better(t, maxTime uint64, s, maxService string) bool {
	if t != maxTime {
		return t > maxTime
	}
	return s < maxService
}

func (v *traceInfoCollectVisitor) GetMost'''))
good('p25-visit-index', (OTT, '''	for _, c := range current.Children {
		tt.visitRecursive(v, c)
	}
''', '''	for i := range current.Children {
		tt.visitRecursive(v, current.Children[i])
	}
'''))
good('p25-compact-early', (OTT, '''	if len(top.Children) > 0 {
		return &TraceTree{Root: top.Children[0]}
	} else {
		return &TraceTree{Root: nil}
	}
''', '''	var root *Span
	if len(top.Children) > 0 {
		root = top.Children[0]
	}
	return NewTraceTree(root)
'''))
good('p25-to-view-helper', (JCMD, '''	slows := lo.Map(slowTraces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})
	sameServices := lo.Map(sameServiceTraces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})
''', '''	toVms := func(traces []*omodel.TraceTree) []*viewmodel.VmOtelCompactTrace {
		return lo.Map(traces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
			return trace.ToCompactViewModel()
		})
	}
	slows := toVms(slowTraces)
	sameServices := toVms(sameServiceTraces)
'''))

# ---- P20
ITT = 'database/dservice/dparser/index_target_table.go'
ITB = 'database/dservice/dparser/index_target_builder.go'
BTF = 'database/dservice/dparser/build_table_fields.go'
CICV = 'otel/omodel/compact_info_collect_visitor.go'
EIR = 'database/dservice/existing_index_remover.go'
bad('p20-no-tie-break', 'P20', (CICV, 'maxTime < t || (maxTime == t && s < maxService)', 'maxTime < t'))
bad('p20-no-sort', 'P20', (ITB, '	SortIndexTargetTable(tables)\n', ''))
bad('p20-sort-first-scope', 'P20', (ITB, '	SortIndexTargetTable(tables)\n', '	if len(scopes) > 1 {\n		SortIndexTargetTable(tables)\n	}\n'))
bad('p20-sort-by-table', 'P20', (ITT, '''		for idx := 0; idx < len(iIndexes); idx++ {
			if iIndexes[idx].Name == jIndexes[idx].Name {
				continue
			}
			return iIndexes[idx].Name < jIndexes[idx].Name
		}

		return false
''', '		return false\n'))
bad('p20-sort-by-columns', 'P20', (ITT, '''		if tables[i].TableName != tables[j].TableName {
			return tables[i].TableName < tables[j].TableName
		}

''', ''))
bad('p20-sort-by-first-column', 'P20', (ITT, '''		for idx := 0; idx < len(iIndexes); idx++ {
			if iIndexes[idx].Name == jIndexes[idx].Name {
				continue
			}
			return iIndexes[idx].Name < jIndexes[idx].Name
		}

		return false
''', '		return len(iIndexes) > 0 && iIndexes[0].Name < jIndexes[0].Name\n'))
bad('p20-sort-too-early', 'P20', (ITB, '	SortIndexTargetTable(tables)\n', ''), (ITB, '	for _, scope := range scopes {\n', '	SortIndexTargetTable(tables)\n	for _, scope := range scopes {\n'))
bad('p20-examine-by-table', 'P20', (EX, '''	for _, it := range its {
		res, err := iee.examine(id, it)
		if err != nil {
			return nil, err
		}

		irs = append(irs, res)
		if rs, ok := results[it.TableName]; ok {
			results[it.TableName] = append(rs, res)
		} else {
			results[it.TableName] = []*dmodel.ExaminationIndexResult{res}
		}
	}
''', '''	groups := map[string][]*dmodel.IndexTarget{}
	for _, it := range its {
		groups[it.TableName] = append(groups[it.TableName], it)
	}
	for tName, group := range groups {
		for _, it := range group {
			res, err := iee.examine(id, it)
			if err != nil {
				return nil, err
			}

			irs = append(irs, res)
			results[tName] = append(results[tName], res)
		}
	}
'''))
bad('p20-results-by-table', 'P20', (EX, '	er := dmodel.NewExaminationResult(irs, origExecTimeMillis)\n', '''	irs = nil
	for _, rs := range results {
		irs = append(irs, rs...)
	}
	er := dmodel.NewExaminationResult(irs, origExecTimeMillis)
'''))
bad('p20-remaining-by-table', 'P20', (EIR, '	its := r.removeMatchedIndexTargets(existingIdxes, idxTargets)\n', '''	var its []*dmodel.IndexTarget
	for _, group := range lo.GroupBy(idxTargets, func(it *dmodel.IndexTarget) string { return it.TableName }) {
		its = append(its, r.removeMatchedIndexTargets(existingIdxes, group)...)
	}
'''))
bad('p20-uniq-by-map', 'P20', (EIR, '	idxTargets := lo.Uniq(r.idxTargets)\n', '''	idxTargets := lo.Values(lo.KeyBy(r.idxTargets, func(it *dmodel.IndexTarget) string { return it.CombinationString() }))
'''))
bad('p20-star-any-order', 'P20', (BTF, '			for _, name := range sortedKeys(si.refTables.internalCols) {\n				res = append(res, si.refTables.internalCols[name]...)\n', '			for _, cols := range si.refTables.internalCols {\n				res = append(res, cols...)\n'))
good('p20-sort-slicestable', (ITT, 'sort.Slice(', 'sort.SliceStable('))
good('p20-sort-helper', (ITB, '	SortIndexTargetTable(tables)\n', '	itb.order(tables)\n'), (ITB, 'func (itb *IndexTargetBuilder) buildFromScope', '''func (itb *IndexTargetBuilder) order(tables []*IndexTargetTable) {
	SortIndexTargetTable(tables)
}

func (itb *IndexTargetBuilder) buildFromScope'''))
good('p20-sort-less', (ITT, '''	sort.Slice(tables, func(i, j int) bool {
		if tables[i].TableName''', '''	sort.Slice(tables, func(i, j int) bool {
		return lessTable(tables[i], tables[j])
	})
}

func lessTable(a, b *IndexTargetTable) bool {
	if a.TableName != b.TableName {
		return a.TableName < b.TableName
	}
	if len(a.IndexFields) != len(b.IndexFields) {
		return len(a.IndexFields) < len(b.IndexFields)
	}
	for i, f := range a.IndexFields {
		if f.Name != b.IndexFields[i].Name {
			return f.Name < b.IndexFields[i].Name
		}
	}
	return false
}

func sortOld(tables []*IndexTargetTable) {
	sort.Slice(tables, func(i, j int) bool {
		if tables[i].TableName'''))
good('p20-table-names-sorted', (ITB, '	for tName, f := range tableFields {\n', '''	var names []string
	for tName := range tableFields {
		names = append(names, tName)
	}
	sort.Strings(names)
	for _, tName := range names {
		f := tableFields[tName]
'''), (ITB, 'import (\n', 'import (\n	"sort"\n'))
good('p20-service-sorted', (CICV, '	for s, t := range v.serviceConsumedTime {\n		if maxTime < t || (maxTime == t && s < maxService) {\n', '''	services := make([]string, 0, len(v.serviceConsumedTime))
	for s := range v.serviceConsumedTime {
		services = append(services, s)
	}
	sort.Strings(services)
	for _, s := range services {
		t := v.serviceConsumedTime[s]
		if maxTime < t {
'''), (CICV, 'package omodel\n', 'package omodel\n\nimport "sort"\n'))
good('p20-log-sorted', (EX, '	for tName, rs := range results {\n', '''	var tNames []string
	for tName := range results {
		tNames = append(tNames, tName)
	}
	for _, tName := range tNames {
		rs := results[tName]
'''))
V1C = 'otel/jaeger/v1_converter.go'
bad('p20-spans-any-order', 'P20', (V1C, "	for _, id := range spanIds {\n		h := spanIdMap[id]\n", "	for _, h := range spanIdMap {\n"), (V1C, "	var spanIds []string\n", ""), (V1C, """				if _, ok := spanIdMap[id]; !ok {
					spanIds = append(spanIds, id)
				}
""", ""))

# ---- P07
PAW = 'database/postgres/pservice/ast/ast_walker.go'
def drop(name, f, line, count=None): bad(name, 'P07', (f, line, ''))
CR = 'sc.collectExprReferences('
drop('p07-my-between-right', MSC, '		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)\n')
drop('p07-my-else', MSC, '		res = append(res, sc.collectExprReferences(e.ElseClause, defaultType)...)\n')
drop('p07-my-when-result', MSC, '			res = append(res, sc.collectExprReferences(w.Result, defaultType)...)\n')
bad('p07-my-in-list', 'P07', (MSC, '''		for _, v := range e.List {
			res = append(res, sc.collectExprReferences(v, defaultType)...)
		}
		res = append(res, sc.collectExprReferences(e.Sel''', '''		res = append(res, sc.collectExprReferences(e.Sel'''))
bad('p07-my-in-list-first', 'P07', (MSC, '''		for _, v := range e.List {
			res = append(res, sc.collectExprReferences(v, defaultType)...)
		}
		res''', '''		for _, v := range e.List {
			res = append(res, sc.collectExprReferences(v, defaultType)...)
			break
		}
		res'''))
bad('p07-my-in-list-long', 'P07', (MSC, '''		for _, v := range e.List {
			res = append(res, sc.collectExprReferences(v, defaultType)...)
		}
		res''', '''		if len(e.List) < 100 {
			for _, v := range e.List {
				res = append(res, sc.collectExprReferences(v, defaultType)...)
			}
		}
		res'''))
bad('p07-my-func-skip-first', 'P07', (MSC, '''	case *ast.FuncCallExpr:
		for _, arg := range e.Args {
			res''', '''	case *ast.FuncCallExpr:
		for i, arg := range e.Args {
			if i == 0 && len(e.Args) > 3 {
				continue
			}
			res'''))
bad('p07-my-func-args-tail', 'P07', (MSC, '''	case *ast.FuncCallExpr:
		for _, arg := range e.Args {
''', '''	case *ast.FuncCallExpr:
		for _, arg := range e.Args[1:] {
'''))
bad('p07-my-agg-order', 'P07', (MSC, '''		if e.Order != nil {
			for _, i := range e.Order.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
''', ''))
bad('p07-my-agg-distinct-only', 'P07', (MSC, '''		if e.Order != nil {
			for''', '''		if e.Order != nil && !e.Distinct {
			for'''))
bad('p07-my-match-columns', 'P07', (MSC, '''		for _, c := range e.ColumnNames {
			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
		}
''', ''))
bad('p07-my-match-role', 'P07', (MSC, 'Name: c.Name.L, Type: defaultType}', 'Name: c.Name.L, Type: dparser.FieldReference}'))
bad('p07-my-column-schema', 'P07', (MSC, 'Table: e.Name.Table.L, Name: e.Name.Name.L', 'Table: e.Name.Schema.L, Name: e.Name.Name.L'))
bad('p07-my-column-no-table', 'P07', (MSC, 'Table: e.Name.Table.L, Name: e.Name.Name.L', 'Name: e.Name.Name.L'))
bad('p07-my-using-reference', 'P07', (MSC, 'Table: c.Table.L, Name: c.Name.L, Type: dparser.FieldCondition', 'Table: c.Table.L, Name: c.Name.L, Type: dparser.FieldReference'))
bad('p07-my-on-reference', 'P07', (MSC, 'collectExprReferences(j.On.Expr, dparser.FieldCondition)', 'collectExprReferences(j.On.Expr, dparser.FieldReference)'))
bad('p07-my-where-reference', 'P07', (MSC, 'createFieldFromExpr(stmt.Where, dparser.FieldCondition)', 'createFieldFromExpr(stmt.Where, dparser.FieldReference)'))
bad('p07-my-having-condition', 'P07', (MSC, 'createFieldFromExpr(stmt.Having.Expr, dparser.FieldReference)', 'createFieldFromExpr(stmt.Having.Expr, dparser.FieldCondition)'))
bad('p07-my-alias-where-table', 'P07', (MSC, 'AsName: n.AsName.L, Name: src.Name.L', 'AsName: src.Name.L, Name: src.Name.L'))
bad('p07-my-table-no-alias', 'P07', (MSC, 'AsName: n.AsName.L, Name: src.Name.L', 'Name: src.Name.L'))
bad('p07-my-field-no-alias', 'P07', (MSC, '			AsName:  field.AsName.L,\n', ''))
bad('p07-my-right-tables-lost', 'P07', (MSC, '	tables = append(tables, rTables...)\n', '	_ = rTables\n'))
bad('p07-my-case-value-overwritten', 'P07', (MSC, '''		res = append(res, sc.collectExprReferences(e.L, defaultType)...)
		res = append(res, sc.collectExprReferences(e.R, defaultType)...)
	case *ast.TableNameExpr''', '''		res = append(res, sc.collectExprReferences(e.L, defaultType)...)
		res = sc.collectExprReferences(e.R, defaultType)
	case *ast.TableNameExpr'''))
bad('p07-my-default-quiet', 'P07', (MSC, '''	default:
		sc.lastError = lib.NewUnsupportedError(
			fmt.Sprintf("not supporting query exists from %d. type: %s", e.OriginTextPosition(), reflect.TypeOf(e).Name()),
		)
		return nil
	}

	return res
''', '''	default:
		_ = reflect.TypeOf(e).Name()
		return nil
	}

	return res
'''))
bad('p07-my-order-limit', 'P07', (MSC, '	if stmt.OrderBy != nil {\n', '	if stmt.OrderBy != nil && stmt.Limit == nil {\n'))
bad('p07-my-group-having', 'P07', (MSC, '	if stmt.GroupBy != nil {\n', '	if stmt.Having == nil && stmt.GroupBy != nil {\n'))
bad('p07-my-fields-star-stop', 'P07', (MSC, '''				Type:  dparser.FieldStar,
			}}
		}
''', '''				Type:  dparser.FieldStar,
			}}
			break
		}
'''))
bad('p07-my-scope-fields-single', 'P07', (MSC, '		if len(f.Columns) > 0 {\n', '		if len(f.Columns) == 1 {\n'))
bad('p07-my-window-agg', 'P07', (MSC, '''	case *ast.WindowFuncExpr:
		for _, arg := range e.Args {
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
		}
''', '''	case *ast.WindowFuncExpr:
'''))
bad('p07-pg-filter', 'P07', (PSC, '		res = append(res, sc.collectExprReferences(e.Filter, defaultType)...)\n', ''))
bad('p07-pg-else', 'P07', (PSC, '		res = append(res, sc.collectExprReferences(e.Else, defaultType)...)\n	case *tree.Subquery', '	case *tree.Subquery'))
bad('p07-pg-range-to', 'P07', (PSC, '		res = append(res, sc.collectExprReferences(e.To, defaultType)...)\n', ''))
bad('p07-pg-range-symmetric', 'P07', (PSC, '		res = append(res, sc.collectExprReferences(e.To, defaultType)...)\n', '		if !e.Symmetric {\n			res = append(res, sc.collectExprReferences(e.To, defaultType)...)\n		}\n'))
bad('p07-pg-nullif', 'P07', (PSC, '		res = append(res, sc.collectExprReferences(e.Expr2, defaultType)...)\n', ''))
bad('p07-pg-window-order', 'P07', (PSC, '''			for _, o := range e.WindowDef.OrderBy {
				res = append(res, sc.collectExprReferences(o.Expr, defaultType)...)
			}
''', ''))
bad('p07-pg-window-or-order', 'P07', (PSC, '		for _, o := range e.OrderBy {\n			res', '		if e.WindowDef != nil {\n			return res\n		}\n		for _, o := range e.OrderBy {\n			res'))
bad('p07-pg-collate-nothing', 'P07', (PSC, '''	case *tree.CollateExpr:
		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
''', '''	case *tree.CollateExpr:
'''))
bad('p07-pg-tuplestar-other', 'P07', (PSC, '''				return []*dparser.FieldColumn{{Table: n.Parts[0], Type: dparser.FieldStar}}
			}
		} else {
			res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
		}
''', '''				return []*dparser.FieldColumn{{Table: n.Parts[0], Type: dparser.FieldStar}}
			}
		}
'''))
bad('p07-pg-column-parts', 'P07', (PSC, 'Table: e.Parts[1], Name: e.Parts[0], Type: defaultType', 'Table: e.Parts[2], Name: e.Parts[0], Type: defaultType'))
bad('p07-pg-column-access-name', 'P07', (PSC, 'Table: n.Parts[0], Name: e.ColName, Type', 'Table: e.ColName, Name: n.Parts[0], Type'))
bad('p07-pg-on-reference', 'P07', (PSC, 'collectExprReferences(c.Expr, dparser.FieldCondition)', 'collectExprReferences(c.Expr, dparser.FieldReference)'))
bad('p07-pg-and-right-reference', 'P07', (PSC, '''	case *tree.AndExpr:
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
''', '''	case *tree.AndExpr:
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, dparser.FieldReference)...)
'''))
bad('p07-pg-lateral', 'P07', (PSC, '				IsLateral: t.Lateral,\n', ''))
bad('p07-pg-paren-table', 'P07', (PSC, '''	case *tree.ParenTableExpr:
		return sc.collectTables(t.Expr)
	case *tree.JoinTableExpr:
		tables, fields = sc.collectJoinReferences(t)
''', '''	case *tree.ParenTableExpr:
		return nil, nil
	case *tree.JoinTableExpr:
		tables, fields = sc.collectJoinReferences(t)
'''))
bad('p07-pg-join-right', 'P07', (PSC, '	rTables, rFields := sc.collectTables(j.Right)\n	tables = append(tables, rTables...)\n	fields = append(fields, rFields...)\n', '	if len(tables) == 0 {\n		tables, fields = sc.collectTables(j.Right)\n	}\n'))
bad('p07-pg-tables-first', 'P07', (PSC, '''		scope.Tables = append(scope.Tables, tables...)
		foundFields = append(foundFields, fields...)
''', '''		scope.Tables = append(scope.Tables, tables...)
		foundFields = append(foundFields, fields...)
		if len(scope.Tables) > 10 {
			break
		}
'''))
bad('p07-pg-rows-from', 'P07', (PSC, '''		case *tree.RowsFromExpr:
			for _, item := range tt.Items {
				fcs := sc.collectExprReferences(item, dparser.FieldReference)
				fields = append(fields, &dparser.Field{Columns: fcs})
			}
''', '''		case *tree.RowsFromExpr:
'''))
bad('p07-pg-having-where', 'P07', (PSC, '	if stmt.Having != nil {\n', '	if stmt.Having != nil && stmt.Where == nil {\n'))
bad('p07-pg-walk-filter', 'P07', (PAW, 'walk(node.Exprs, node.Filter, node.OrderBy)', 'walk(node.Exprs, node.OrderBy)'))
bad('p07-pg-walk-else', 'P07', (PAW, 'walk(node.Expr, node.Else)', 'walk(node.Expr)'))
bad('p07-pg-walk-having', 'P07', (PAW, '''				if node.Having != nil {
					walk(node.Having)
				}
''', ''))
bad('p07-pg-walk-union-right', 'P07', (PAW, 'walk(node.Left, node.Right, node.Cond)', 'walk(node.Left, node.Right)'))
bad('p07-pg-walk-unknown', 'P07', (PAW, '''					w.UnknownNodes = append(w.UnknownNodes, node)
''', '''					_ = node
'''))
bad('p07-pg-walk-distinct', 'P07', (PAW, '''					for _, distinct := range node.DistinctOn {
						walk(distinct)
					}
''', '''					for i, distinct := range node.DistinctOn {
						if i > 0 {
							walk(distinct)
						}
					}
'''))
good('p07-my-helper', (MSC, '''		if e.Order != nil {
			for _, i := range e.Order.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
''', '''		if e.Order != nil {
			res = append(res, sc.collectByItems(e.Order.Items, defaultType)...)
		}
'''), (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) collectByItems(items []*ast.ByItem, defaultType dparser.FieldType) []*dparser.FieldColumn {
	var res []*dparser.FieldColumn
	for _, i := range items {
		res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
	}
	return res
}

func (sc *scopeCollector) collectTables('''))
good('p07-my-list', (MSC, '''		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
''', '''		for _, ex := range []ast.ExprNode{e.Expr, e.Left, e.Right} {
			res = append(res, sc.collectExprReferences(ex, defaultType)...)
		}
'''))
good('p07-my-variadic', (MSC, '''		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
''', '''		res = sc.collectAll(defaultType, e.Expr, e.Left, e.Right)
'''), (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) collectAll(defaultType dparser.FieldType, exprs ...ast.ExprNode) []*dparser.FieldColumn {
	var res []*dparser.FieldColumn
	for _, e := range exprs {
		res = append(res, sc.collectExprReferences(e, defaultType)...)
	}
	return res
}

func (sc *scopeCollector) collectTables('''))
good('p07-my-flatmap', (MSC, '''	case *ast.FuncCallExpr:
		for _, arg := range e.Args {
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
		}
''', '''	case *ast.FuncCallExpr:
		res = lo.FlatMap(e.Args, func(arg ast.ExprNode, _ int) []*dparser.FieldColumn {
			return sc.collectExprReferences(arg, defaultType)
		})
'''), (MSC, '	driver "github', '	"github.com/samber/lo"\n	driver "github'))
good('p07-my-index-loop', (MSC, '''	case *ast.FuncCallExpr:
		for _, arg := range e.Args {
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
		}
''', '''	case *ast.FuncCallExpr:
		for i := 0; i < len(e.Args); i++ {
			cols := sc.collectExprReferences(e.Args[i], defaultType)
			if len(cols) == 0 {
				continue
			}
			res = append(res, cols...)
		}
'''))
good('p07-my-ifelse', (MSC, '''	case *ast.TimeUnitExpr:
		// do nothing as time unit doesn't relate to table's column
	case *ast.GetFormatSelectorExpr:
''', '''	case *ast.TimeUnitExpr, *ast.GetFormatSelectorExpr:
'''))
good('p07-my-clauses-helper', (MSC, '''	if stmt.Limit != nil {
		f, err := sc.createFieldFromExpr(stmt.Limit.Count, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}

		f, err = sc.createFieldFromExpr(stmt.Limit.Offset, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
''', '''	foundFields = append(foundFields, sc.collectLimit(stmt.Limit)...)
'''), (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) collectLimit(limit *ast.Limit) []*dparser.Field {
	if limit == nil {
		return nil
	}
	var res []*dparser.Field
	for _, e := range []ast.ExprNode{limit.Count, limit.Offset} {
		f, err := sc.createFieldFromExpr(e, dparser.FieldReference)
		if err != nil {
			sc.errors = append(sc.errors, err)
			continue
		}
		res = append(res, f)
	}
	return res
}

func (sc *scopeCollector) collectTables('''))
good('p07-my-where-early', (MSC, '''	if stmt.Where != nil {
		f, err := sc.createFieldFromExpr(stmt.Where, dparser.FieldCondition)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
''', '''	if where := stmt.Where; where != nil {
		f, err := sc.createFieldFromExpr(where, dparser.FieldCondition)
		if err != nil {
			sc.errors = append(sc.errors, err)
		}
		if err == nil {
			foundFields = append(foundFields, f)
		}
	}
'''))
good('p07-pg-case-merge', (PSC, '''	case *tree.AndExpr:
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
	case *tree.OrExpr:
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
''', '''	case *tree.AndExpr:
		res = sc.collectPair(e.Left, e.Right, defaultType)
	case *tree.OrExpr:
		res = sc.collectPair(e.Left, e.Right, defaultType)
'''), (PSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) collectPair(l, r tree.Expr, t dparser.FieldType) []*dparser.FieldColumn {
	return append(sc.collectExprReferences(l, t), sc.collectExprReferences(r, t)...)
}

func (sc *scopeCollector) collectTables('''))
good('p07-pg-func-helper', (PSC, '''		for _, arg := range e.Exprs {
			if _, ok := arg.(tree.UnqualifiedStar); ok {
				// do nothing for star inside a function as it doesn't reference anything
			} else {
				res = append(res, sc.collectExprReferences(arg, defaultType)...)
			}
		}
		res = append(res, sc.collectExprReferences(e.Filter''', '''		for _, arg := range e.Exprs {
			if _, ok := arg.(tree.UnqualifiedStar); ok {
				continue
			}
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
		}
		res = append(res, sc.collectExprReferences(e.Filter'''))
good('p07-pg-window-helper', (PSC, '''		if e.WindowDef != nil {
			for _, p''', '''		if e.WindowDef == nil {
			for _, o := range e.OrderBy {
				res = append(res, sc.collectExprReferences(o.Expr, defaultType)...)
			}
			return res
		} else {
			for _, p'''))
good('p07-pg-select-helper', (PSC, '''	for _, d := range stmt.DistinctOn {
		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
''', '''	foundFields = append(foundFields, sc.collectDistinct(stmt)...)
'''), (PSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) collectDistinct(stmt *tree.SelectClause) []*dparser.Field {
	var res []*dparser.Field
	for _, d := range stmt.DistinctOn {
		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
		if err != nil {
			sc.errors = append(sc.errors, err)
		} else {
			res = append(res, f)
		}
	}
	return res
}

func (sc *scopeCollector) collectTables('''))
good('p07-pg-walk-each', (PAW, 'walk(node.Exprs, node.Filter, node.OrderBy)', 'walk(node.Exprs)\n				walk(node.Filter)\n				walk(node.OrderBy)'))
good('p07-pg-walk-spread', (PAW, '''				for _, expr := range node.Exprs {
					walk(expr)
				}
			case *tree.ColumnTableDef''', '''				walk(node.Exprs)
			case *tree.ColumnTableDef'''))

# P08
bad('p08-my-window-len', 'P08', (MSC, '	if stmt.WindowSpecs != nil {', '	if len(stmt.WindowSpecs) > 1 {'))
bad('p08-my-window-groupby', 'P08', (MSC, '	if stmt.WindowSpecs != nil {', '	if stmt.WindowSpecs != nil && stmt.GroupBy != nil {'))
bad('p08-my-window-drop', 'P08', (MSC, '	if stmt.WindowSpecs != nil {\n		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))\n	}\n', ''))
bad('p08-my-with-drop', 'P08', (MSC, '	if stmt.With != nil {\n', '	if stmt.With != nil && stmt.With.IsRecursive {\n'))
bad('p08-my-natural-on', 'P08', (MSC, '	if j.NaturalJoin {', '	if j.NaturalJoin && j.Tp == ast.CrossJoin {'))
bad('p08-my-natural-drop', 'P08', (MSC, '''	if j.NaturalJoin {
		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
		return nil, nil
	}
''', ''))
bad('p08-my-kind', 'P08', (MSC, '	if stmt.Kind == ast.SelectStmtKindValues {', '	if stmt.Kind == ast.SelectStmtKindTable {'))
bad('p08-my-schema-alias', 'P08', (MSC, '			if src.Schema.O != "" {', '			if src.Schema.O != "" && n.AsName.L == "" {'))
bad('p08-my-schema-same', 'P08', (MSC, '			if src.Schema.O != "" {', '			if src.Schema.O != "" && src.Schema.L != "public" && src.Schema.L == src.Name.L {'))
bad('p08-pg-window', 'P08', (PSC, '	if stmt.Window != nil {', '	if stmt.Window != nil && stmt.Having != nil {'))
bad('p08-pg-with', 'P08', (PSC, '	if selectNode.With != nil {', '	if selectNode.With != nil && selectNode.With.Recursive {'))
bad('p08-pg-union-silent', 'P08', (PSC, '''		sc.errors = append(sc.errors, lib.NewUnsupportedError(
			fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
		))
		return false
''', '''		return false
'''))
bad('p08-pg-union-nested', 'P08', (PSC, '''		sc.errors = append(sc.errors, lib.NewUnsupportedError(
			fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
		))
		return false
''', '''		if len(sc.scopes) == 0 {
			sc.errors = append(sc.errors, lib.NewUnsupportedError(
				fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
			))
		}
		return false
'''))
bad('p08-pg-natural', 'P08', (PSC, '			sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")\n', '			// every column of the same name\n'))
bad('p08-pg-natural-type', 'P08', (PSC, '			sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")\n', '			if j.JoinType != "" {\n				sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")\n			}\n'))
bad('p08-pg-schema-parts', 'P08', (PSC, '	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {', '	if un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema {'))
bad('p08-pg-schema-parts2', 'P08', (PSC, '	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {', '	if un.NumParts > schemaPos+1 {'))
bad('p08-pg-schema-pos', 'P08', (PSC, 'sc.isSchemaSpecified(n, 1)', 'sc.isSchemaSpecified(n, 2)'))
bad('p08-pg-schema-pos3', 'P08', (PSC, 'sc.isSchemaSpecified(e, 2)', 'sc.isSchemaSpecified(e, 3)'))
bad('p08-pg-catalog', 'P08', (PSC, '	if tt.CatalogName != "" {\n		return true\n	}\n\n', ''))
bad('p08-pg-schema-prefix', 'P08', (PSC, '	if sName == "" || sName == sc.targetSchema {', '	if sName == "" || sName != sc.targetSchema {'))
bad('p08-pg-star', 'P08', (PSC, '''		if sc.isSchemaSpecified(e, 2) {
			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
		} else {
			if e.Star {''', '''		if !e.Star && sc.isSchemaSpecified(e, 2) {
			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
		} else {
			if e.Star {'''))
bad('p08-pg-tableref', 'P08', (PSC, '			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")\n', '			tables = []*dparser.Table{{AsName: t.As.Alias.Normalize()}}\n'))
MTS='database/mysql/mservice/parser/collect_table_schemas.go'
PTS='database/postgres/pservice/parser/collect_table_schemas.go'
HTS='database/hasura/hservice/parser/collect_table_schemas.go'
bad('p08-my-unknown-continue', 'P08', (MTS, '			return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))\n', '			log.Printf("unknown table: %s", table)\n			schemas[i] = &dparser.TableSchema{Name: table}\n'), (MTS, '	"github.com/mrasu/GravityR/lib"\n', ''), (MTS, '	"fmt"\n', ''))
bad('p08-pg-unknown-break', 'P08', (PTS, '		if schemas[i] == nil {\n', '		if schemas[i] != nil {\n			break\n		}\n		if schemas[i] == nil {\n'))
bad('p08-h-unknown-drop', 'P08', (HTS, '''	for i, table := range tables {
		if schemas[i] == nil {
			return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))
		}
	}
''', ''), (HTS, '	"github.com/mrasu/GravityR/lib"\n', ''), (HTS, '	"fmt"\n', ''))
bad('p08-column-unknown', 'P08', (BTF, '''	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", c.Name))
''', '''	return nil, nil
'''))
bad('p08-column-unknown-len', 'P08', (BTF, '''	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", colName))
''', '''	if len(t.externalCols) > 0 {
		return nil, nil
	}
	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", colName))
'''))
bad('p08-table-unknown', 'P08', (BTF, '''	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
''', '''	return nil, nil
'''))

good('p08-my-window-len-any', (MSC, '	if stmt.WindowSpecs != nil {', '	if len(stmt.WindowSpecs) > 0 {'))
good('p08-my-window-early', (MSC, '	if stmt.WindowSpecs != nil {\n		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))\n	}\n', ''),
     (MSC, '	scope := &dparser.StmtScope{Name: dparser.RootScopeName}\n', '	if err := sc.checkSupported(stmt); err != nil {\n		sc.errors = append(sc.errors, err)\n	}\n\n	scope := &dparser.StmtScope{Name: dparser.RootScopeName}\n'),
     (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) checkSupported(stmt *ast.SelectStmt) error {
	if len(stmt.WindowSpecs) != 0 {
		return lib.NewUnsupportedError("not supporting WINDOW")
	}
	return nil
}

func (sc *scopeCollector) collectTables('''))
good('p08-my-refuse-helper', (MSC, '''	if stmt.WindowSpecs != nil {
		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))
	}
''', '''	sc.rejectWindow(stmt)
'''), (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) rejectWindow(stmt *ast.SelectStmt) {
	if stmt.WindowSpecs == nil {
		return
	}
	sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))
}

func (sc *scopeCollector) collectTables('''))
good('p08-my-refuse-const', (MSC, '''	if stmt.WindowSpecs != nil {
		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting WINDOW"))
	}
''', '''	hasWindow := stmt.WindowSpecs != nil
	if hasWindow {
		sc.addError("not supporting WINDOW")
	}
'''), (MSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) addError(msg string) {
	sc.errors = append(sc.errors, lib.NewUnsupportedError(msg))
}

func (sc *scopeCollector) collectTables('''))
good('p08-my-natural-first', (MSC, '''	if j.NaturalJoin {
		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
		return nil, nil
	}
''', ''), (MSC, '''	tables, fields := sc.collectReferencingTables(j.Left)
''', '''	if j.NaturalJoin {
		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
		return nil, nil
	}

	tables, fields := sc.collectReferencingTables(j.Left)
'''))
good('p08-my-schema-l', (MSC, '			if src.Schema.O != "" {', '			if len(src.Schema.L) > 0 {'))
good('p08-my-schema-helper', (MSC, '			if src.Schema.O != "" {', '			if hasDatabase(src) {'), (MSC, 'func (sc *scopeCollector) collectTables(', '''func hasDatabase(t *ast.TableName) bool {
	return t.Schema.O != ""
}

func (sc *scopeCollector) collectTables('''))
good('p08-my-schema-else', (MSC, '''			tables = append(tables, &dparser.Table{AsName: n.AsName.L, Name: src.Name.L})
''', '''			if src.Schema.O == "" {
				tables = append(tables, &dparser.Table{AsName: n.AsName.L, Name: src.Name.L})
			}
'''))
good('p08-pg-schema-return', (PSC, '''	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {
		return true
	}

	return false
''', '''	return (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1
'''))
good('p08-pg-schema-switch', (PSC, '''	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {
		return true
	}

	return false
''', '''	switch {
	case un.NumParts <= schemaPos:
		return false
	case un.NumParts == schemaPos+1:
		return un.Parts[schemaPos] != sc.targetSchema
	default:
		return true
	}
'''))
good('p08-pg-schema-generic', (PSC, '''	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {
		return true
	}

	return false
''', '''	return sc.isOther(un.NumParts, schemaPos, un.Parts[:])
'''), (PSC, '''	if (uon.NumParts == schemaPos+1 && uon.Parts[schemaPos] != sc.targetSchema) || uon.NumParts > schemaPos+1 {
		return true
	}

	return false
''', '''	return sc.isOther(uon.NumParts, schemaPos, uon.Parts[:])
'''), (PSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) isOther(n, pos int, parts []string) bool {
	if n > pos+1 {
		return true
	}
	return n == pos+1 && parts[pos] != sc.targetSchema
}

func (sc *scopeCollector) collectTables('''))
good('p08-pg-tablename-one', (PSC, '''	if tt.CatalogName != "" {
		return true
	}

	sName := tt.SchemaName.Normalize()
	if sName == "" || sName == sc.targetSchema {
		return false
	}

	return true
''', '''	sName := string(tt.SchemaName)
	return tt.CatalogName != "" || (sName != "" && sName != sc.targetSchema)
'''))
good('p08-pg-tablename-guard', (PSC, '''			if sc.isSchemaSpecifiedTableName(tt) {
				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
			} else {
				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
			}
''', '''			if err := sc.checkTableName(tt); err != nil {
				sc.lastError = err
				break
			}
			tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
'''), (PSC, 'func (sc *scopeCollector) collectTables(', '''func (sc *scopeCollector) checkTableName(tt *tree.TableName) error {
	if sc.isSchemaSpecifiedTableName(tt) {
		return lib.NewUnsupportedError("schema or catalog/db specification is not supported")
	}
	return nil
}

func (sc *scopeCollector) collectTables('''))
good('p08-pg-union-switch', (PSC, '''	stmt, ok := selectNode.Select.(*tree.SelectClause)
	if !ok {
		// e.g.) UNION, VALUES and SELECT wrapped with extra parentheses
		sc.errors = append(sc.errors, lib.NewUnsupportedError(
			fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
		))
		return false
	}
''', '''	var stmt *tree.SelectClause
	switch sel := selectNode.Select.(type) {
	case *tree.SelectClause:
		stmt = sel
	case *tree.UnionClause:
		sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting UNION"))
		return false
	default:
		sc.errors = append(sc.errors, lib.NewUnsupportedError(
			fmt.Sprintf("only simple SELECT is supported (type: %T)", selectNode.Select),
		))
		return false
	}
'''))
good('p08-pg-natural-default', (PSC, '''		case tree.NaturalJoinCond:
			sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
''', ''))
good('p08-pg-tableref-default', (PSC, '''		case *tree.TableRef:
			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
''', '''		default:
			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
'''))
good('p08-my-unknown-range', (MTS, '''	for i, table := range tables {
		if schemas[i] == nil {
			return nil, lib''', '''	for i, schema := range schemas {
		table := tables[i]
		if schema == nil {
			return nil, lib'''))
good('p08-my-unknown-helper', (MTS, '''	for i, table := range tables {
		if schemas[i] == nil {
			return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))
		}
	}
''', '''	if err := checkKnown(tables, schemas); err != nil {
		return nil, err
	}
'''), (MTS, 'func CollectTableSchemas(', '''func checkKnown(tables []string, schemas []*dparser.TableSchema) error {
	for i, table := range tables {
		if schemas[i] == nil {
			return lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))
		}
	}
	return nil
}

func CollectTableSchemas('''))
good('p08-my-unknown-all', (MTS, '''	for i, table := range tables {
		if schemas[i] == nil {
			return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))
		}
	}
''', '''	unknown := -1
	for i := range tables {
		if schemas[i] == nil {
			unknown = i
			break
		}
	}
	if unknown >= 0 {
		return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", tables[unknown]))
	}
'''))
good('p08-column-found', (BTF, '''	for _, fc := range fCols {
		if c.Name == fc.name {
			return fc.referencingColumns, nil
		}
	}

	return nil, lib''', '''	var found *outputCol
	for _, fc := range fCols {
		if c.Name == fc.name {
			found = fc
			break
		}
	}
	if found != nil {
		return found.referencingColumns, nil
	}

	return nil, lib'''))
bad('p25-offer-last', 'P25', (HEAP, '	heap.Push(h.h, x)\n', '	if n := h.h.Len(); n >= h.limit && h.h.less(x, h.h.vals[n-1]) {\n		return\n	}\n	heap.Push(h.h, x)\n'))
bad('p25-offer-first-come', 'P25', (HEAP, '	heap.Push(h.h, x)\n', '	if h.h.Len() >= h.limit {\n		return\n	}\n	heap.Push(h.h, x)\n'))
bad('p25-offer-zero', 'P25', (TPK, '		slowTraces.Push(tree)\n', '		if tree.Root.Duration() == 0 {\n			continue\n		}\n		slowTraces.Push(tree)\n'))
bad('p25-offer-break', 'P18', (TPK, '		slowTraces.Push(tree)\n', '		slowTraces.Push(tree)\n		if slowTraces.Len() == num && tree.Root.Name == "x" {\n			break\n		}\n'))
good('p25-offer-peek', (HEAP, '	heap.Push(h.h, x)\n', '	if n := h.h.Len(); n > 0 && n >= h.limit && h.h.less(x, h.h.vals[0]) {\n		return\n	}\n	heap.Push(h.h, x)\n'))
good('p25-offer-nil', (TPK, '		slowTraces.Push(tree)\n', '		if tree == nil {\n			continue\n		}\n		slowTraces.Push(tree)\n'))

# ---- second, independent series of behaviour-preserving edits
RA = 'return nil, err\n'
good('r2-ex-struct-ctx', (EX, '''	irs = append(irs, res)
''', '''	irs = append(irs, res)
''') if False else (EX, '''	var irs []*dmodel.ExaminationIndexResult
	results :=''', '''	irs := make([]*dmodel.ExaminationIndexResult, 0, len(its))
	results :='''), (EX, '''		if rs, ok := results[it.TableName]; ok {
			results[it.TableName] = append(rs, res)
		} else {
			results[it.TableName] = []*dmodel.ExaminationIndexResult{res}
		}
''', '''		results[it.TableName] = append(results[it.TableName], res)
'''))
good('r2-ex-log-helper', (EX, '''	er := dmodel.NewExaminationResult(irs, origExecTimeMillis)

	log.Debug().Msg("====RESULT====")
	log.Printf("Original Time: %dms", origExecTimeMillis)

	for tName, rs := range results {
''', '''	iee.logResults(origExecTimeMillis, results)

	return dmodel.NewExaminationResult(irs, origExecTimeMillis), nil
}

func (iee *IndexEfficiencyExaminer) logResults(origExecTimeMillis int64, results map[string][]*dmodel.ExaminationIndexResult) {
	log.Debug().Msg("====RESULT====")
	log.Printf("Original Time: %dms", origExecTimeMillis)

	for tName, rs := range results {
'''), (EX, '''			)
		}
	}

	return er, nil
}
''', '''			)
		}
	}
}
'''))
good('r2-ex-drop-method', (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()
''', '''	defer func() {
		dropErr := iee.drop(idxName, it)
		if dropErr != nil && err == nil {
			res, err = nil, dropErr
		}
	}()
'''), (EX, 'func (iee *IndexEfficiencyExaminer) execute()', '''func (iee *IndexEfficiencyExaminer) drop(idxName string, it *dmodel.IndexTarget) error {
	log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
	return errors.Wrap(iee.ie.DropIndex(idxName, it), "failed to drop index")
}

func (iee *IndexEfficiencyExaminer) execute()'''))
good('r2-ex-two-phase', (EX, '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return dmodel.NewExaminationIndexResult(it, millis), nil
''', '''	var millis int64
	if millis, err = iee.execute(); err != nil {
		return nil, err
	}

	res = dmodel.NewExaminationIndexResult(it, millis)
	return res, nil
'''))
good('r2-ex-name-parts', (EX, '''	idxName := fmt.Sprintf("%s_%s",
		id,
		lib.Join(it.Columns, "_", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
	)
	if len(idxName) > maxIdxNameLen {''', '''	idxName := id
	for _, c := range it.Columns {
		idxName += "_" + c.SafeName()
	}
	if len(idxName) > maxIdxNameLen {'''))
bad('r2-ex-name-parts-raw', 'P03', (EX, '''	idxName := fmt.Sprintf("%s_%s",
		id,
		lib.Join(it.Columns, "_", func(i *dmodel.IndexColumn) string { return i.SafeName() }),
	)
	if len(idxName) > maxIdxNameLen {''', '''	idxName := id
	for _, c := range it.Columns {
		idxName += "_" + c.Name
	}
	if len(idxName) > maxIdxNameLen {'''))
good('r2-myx-timed', (MYX, '''	start := time.Now()
	_, err := ie.db.Exec(ie.query)
	if err != nil {
		return 0, err
	}
	elapsed := time.Since(start)

	return elapsed.Milliseconds(), nil
''', '''	var elapsed time.Duration
	err := func() error {
		defer func(start time.Time) { elapsed = time.Since(start) }(time.Now())
		_, err := ie.db.Exec(ie.query)
		return err
	}()
	if err != nil {
		return 0, err
	}

	return elapsed.Milliseconds(), nil
'''))
good('r2-myx-exec-helper', (MYX, '''	_, err := ie.db.Exec(sql)
	return err
}

func (ie *IndexExaminer) DropIndex''', '''	return ie.run(sql)
}

func (ie *IndexExaminer) run(sql string) error {
	if _, err := ie.db.Exec(sql); err != nil {
		return err
	}
	return nil
}

func (ie *IndexExaminer) DropIndex'''), (MYX, '''` DROP INDEX `%s`", it.TableName, name)
	_, err := ie.db.Exec(sql)
	return err
''', '''` DROP INDEX `%s`", it.TableName, name)
	return ie.run(sql)
'''))
good('r2-myx-quote', (MYX, '''	sql := fmt.Sprintf(
		"ALTER TABLE `%s` ADD INDEX `%s` (%s)",
		it.TableName, name,
		lib.Join(it.Columns, ",", func(i *dmodel.IndexColumn) string { return "`" + i.SafeName() + "`" }),
	)
''', '''	columns := make([]string, 0, len(it.Columns))
	for _, c := range it.Columns {
		columns = append(columns, quote(c.SafeName()))
	}
	sql := fmt.Sprintf("ALTER TABLE %s ADD INDEX %s (%s)", quote(it.TableName), quote(name), strings.Join(columns, ","))
'''), (MYX, '	"github.com/mrasu/GravityR/lib"\n	"time"', '	"strings"\n	"time"'), (MYX, 'func NewIndexExaminer', '''func quote(name string) string {
	return "`" + name + "`"
}

func NewIndexExaminer'''))
good('r2-my-targets-helper', (MYC, '''	targets := varTargets
	if len(targets) == 0 {
		targets = lo.Filter(possibleTargets, func(it *dmodel.IndexTarget, _ int) bool { return it.IsSafe() })
	}
''', '''	targets := mr.chooseTargets(varTargets, possibleTargets)
'''), (MYC, 'func (mr *mysqlRunner) createHTML', '''func (mr *mysqlRunner) chooseTargets(varTargets, possibleTargets []*dmodel.IndexTarget) []*dmodel.IndexTarget {
	if len(varTargets) > 0 {
		return varTargets
	}

	var safe []*dmodel.IndexTarget
	for _, it := range possibleTargets {
		if !it.IsSafe() {
			continue
		}
		safe = append(safe, it)
	}
	return safe
}

func (mr *mysqlRunner) createHTML'''))
good('r2-my-examine-if', (MYC, '''	var er *dmodel.ExaminationResult
	if mr.runsExamination {
		er, err = mr.examine(db, examinationIdxTargets, its)
		if err != nil {
			return err
		}
	}
''', '''	er, err := mr.examineIfRequired(db, examinationIdxTargets, its)
	if err != nil {
		return err
	}
'''), (MYC, 'func (mr *mysqlRunner) examine(', '''func (mr *mysqlRunner) examineIfRequired(db *mysql.DB, varTargets, possibleTargets []*dmodel.IndexTarget) (*dmodel.ExaminationResult, error) {
	if !mr.runsExamination {
		return nil, nil
	}
	return mr.examine(db, varTargets, possibleTargets)
}

func (mr *mysqlRunner) examine('''))
good('r2-my-suggest-first', (MYC, '''	aTree, err := mservice.NewExplainer(db).ExplainWithAnalyze(mr.query)
	if err != nil {
		return err
	}

	its, err := mservice.NewIndexSuggester(db, dbName).Suggest(mr.query)
	if err != nil {
		return err
	}
''', '''	explainer := mservice.NewExplainer(db)
	suggester := mservice.NewIndexSuggester(db, dbName)

	aTree, err := explainer.ExplainWithAnalyze(mr.query)
	if err != nil {
		return err
	}
	its, err := suggester.Suggest(mr.query)
	if err != nil {
		return err
	}
'''))
good('r2-my-html-inline', (MYC, '''	err := html.CreateHtml(html.TypeMain, outputPath, bo)
	if err != nil {
		return err
	}
''', '''	if err := html.CreateHtml(html.TypeMain, outputPath, bo); err != nil {
		return err
	}
'''))
good('r2-rem-helper', (REM, '''		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}
	})
''', '''		return !hasSameIndex(idxGroups[it.TableName], it)
	})
}

func hasSameIndex(idxes []*dmodel.IndexTarget, it *dmodel.IndexTarget) bool {
	for _, id := range idxes {
		if it.HasSameIdxColumns(id) {
			return true
		}
	}
	return false
'''))
good('r2-rem-reject', (REM, '''	idxGroups := lo.GroupBy(idxInfos, func(i *dmodel.IndexTarget) string { return i.TableName })

	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool {
		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}
	})
''', '''	return lo.Reject(its, func(it *dmodel.IndexTarget, _ int) bool {
		return lo.SomeBy(idxInfos, func(id *dmodel.IndexTarget) bool {
			return id.TableName == it.TableName && it.HasSameIdxColumns(id)
		})
	})
'''))
good('r2-rem-labels', (REM, '''	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool {
		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}
	})
''', '''	var res []*dmodel.IndexTarget
next:
	for _, it := range its {
		for _, id := range idxGroups[it.TableName] {
			if it.HasSameIdxColumns(id) {
				continue next
			}
		}
		res = append(res, it)
	}
	return res
'''))
good('r2-it-same-every', (ITG, '''	for i, col := range info.Columns {
		if !strings.EqualFold(it.Columns[i].Name, col.Name) {
			return false
		}
	}

	return true
''', '''	same := true
	for i := range it.Columns {
		same = same && strings.EqualFold(info.Columns[i].Name, it.Columns[i].Name)
	}

	return same
'''))
good('r2-it-safe-every', (ITG, '''	for _, c := range it.Columns {
		if c.Name != c.SafeName() {
			return false
		}
	}

	return true
''', '''	return lo.EveryBy(it.Columns, func(c *IndexColumn) bool { return c.Name == c.SafeName() })
'''))
good('r2-hb-readfile', (HB, '''	script, err := fs.ReadFile(injection.ClientDist, "client/dist/assets/"+htmlType+".js")
	if err != nil {
		return errors.Wrap(err, "failed to open file")
	}
	style, err := fs.ReadFile(injection.ClientDist, "client/dist/assets/"+htmlType+".css")
	if err != nil {
		return errors.Wrap(err, "failed to open file")
	}
''', '''	script, err := readAsset(htmlType + ".js")
	if err != nil {
		return err
	}
	style, err := readAsset(htmlType + ".css")
	if err != nil {
		return err
	}
'''), (HB, 'func CreateHtml', '''func readAsset(name string) ([]byte, error) {
	b, err := fs.ReadFile(injection.ClientDist, "client/dist/assets/"+name)
	if err != nil {
		return nil, errors.Wrap(err, "failed to open file")
	}
	return b, nil
}

func CreateHtml'''))
good('r2-hb-write-helper', (HB, '''	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrap(err, "failed to create html file")
	}

	err = tpl.Execute(f, m)
	if err != nil {
		_ = f.Close()
		return errors.Wrap(err, "failed to write template to html")
	}

	err = f.Close()
	if err != nil {
		return errors.Wrap(err, "failed to close html file")
	}

	return nil
''', '''	return writeTemplate(filename, tpl, m)
}

func writeTemplate(filename string, tpl *template.Template, data map[string]interface{}) (err error) {
	f, err := os.Create(filename)
	if err != nil {
		return errors.Wrap(err, "failed to create html file")
	}
	defer func() {
		closeErr := f.Close()
		if err == nil {
			err = errors.Wrap(closeErr, "failed to close html file")
		}
	}()

	return errors.Wrap(tpl.Execute(f, m0(data)), "failed to write template to html")
}

func m0(data map[string]interface{}) interface{} {
	return data
'''))
good('r2-encoder-buffer', (HB, '''	tpl, err := template.New("").Parse(tmpl)
''', '''	var gr bytes.Buffer
	err = json.NewEncoder(&gr).Encode(bo.createGrMap())
	if err != nil {
		return errors.Wrap(err, "failed to encode data of html")
	}

	tpl, err := template.New("").Parse(tmpl)
'''), (HB, '''		"gr":     bo.createGrMap(),
''', '''		"gr":     template.JS(gr.String()),
'''), (HB, '''import (
''', '''import (
	"bytes"
	"encoding/json"
'''))

# third series of edits that keep the behaviour
good('r3-tf-param-helper', (TF, """	for _, start := range times {
		param := &api_v3.TraceQueryParameters{
			ServiceName:  serviceName,
			StartTimeMin: &types.Timestamp{Seconds: start.Unix()},
			StartTimeMax: &types.Timestamp{Seconds: start.Add(interval).Unix()},
			NumTraces:    size,
			DurationMin:  tf.toProtoDuration(durationMin),
		}
		log""", """	for _, start := range times {
		param := tf.buildParam(serviceName, start, start.Add(interval), size, durationMin)
		log"""), (TF, """func (tf *TraceFetcher) toProtoDuration(""", """func (tf *TraceFetcher) buildParam(name string, from, to time.Time, size int32, durationMin time.Duration) *api_v3.TraceQueryParameters {
	param := &api_v3.TraceQueryParameters{}
	param.ServiceName = name
	param.StartTimeMin = toTimestamp(from)
	param.StartTimeMax = toTimestamp(to)
	param.NumTraces = size
	param.DurationMin = tf.toProtoDuration(durationMin)
	return param
}

func toTimestamp(t time.Time) *types.Timestamp {
	return &types.Timestamp{Seconds: t.Unix()}
}

func (tf *TraceFetcher) toProtoDuration("""))
good('r3-tf-proto-duration', (TF, """	secs := int64(duration.Truncate(time.Second).Seconds())
	nanos := int32(duration.Nanoseconds() - int64(time.Duration(secs)*time.Second))

	return &types.Duration{
		Seconds: secs,
		Nanos:   nanos,
	}
""", """	return types.DurationProto(duration)
"""))
good('r3-tf-proto-duration2', (TF, """	secs := int64(duration.Truncate(time.Second).Seconds())
	nanos := int32(duration.Nanoseconds() - int64(time.Duration(secs)*time.Second))
""", """	secs := int64(duration / time.Second)
	nanos := int32(duration % time.Second)
"""))
good('r3-tf-index-loop', (TF, """	for _, start := range times {
		param""", """	for i := 0; i < len(times); i++ {
		start := times[i]
		param"""))
good('r3-tf-flat', (TF, """		for _, tree := range trees {
			compacted := tree.Compact()
			compactedTrees = append(compactedTrees, compacted)
		}
""", """		compactedTrees = append(compactedTrees, compactAll(trees)...)
"""), (TF, """func (tf *TraceFetcher) findC""", """func compactAll(trees []*omodel.TraceTree) []*omodel.TraceTree {
	res := make([]*omodel.TraceTree, len(trees))
	for i, tree := range trees {
		res[i] = tree.Compact()
	}
	return res
}

func (tf *TraceFetcher) findC"""))
good('r3-tf-named', (TF, """		trees, err := tf.findCompactedTraceTrees(param)
		if err != nil {
			return nil, err
		}
		res = append(res, trees...)
""", """		if trees, err := tf.findCompactedTraceTrees(param); err == nil {
			res = append(res, trees...)
		} else {
			return nil, err
		}
"""))
good('r3-jc-switch', (JIC, """		chunk, err := resp.Recv()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, errors.Wrap(err, "failed to receive result to find traces")
		}
		spans := chunk.GetResourceSpans()

		traces = append(traces, &Trace{Spans: spans})
	}

	return traces, nil
""", """		chunk, err := resp.Recv()
		switch {
		case err == nil:
			traces = append(traces, &Trace{Spans: chunk.GetResourceSpans()})
		case errors.Is(err, io.EOF):
			return traces, nil
		default:
			return nil, errors.Wrap(err, "failed to receive result to find traces")
		}
	}
"""))
good('r3-jc-eq', (JIC, """			if errors.Is(err, io.EOF) {
				break
			}
			return nil,""", """			if err == io.EOF {
				return traces, nil
			}
			return nil,"""), (JIC, """		traces = append(traces, &Trace{Spans: spans})
	}

	return traces, nil
""", """		traces = append(traces, &Trace{Spans: spans})
	}
"""))
good('r3-jc-recvloop', (JIC, """	var traces []*Trace
	for {
		chunk, err := resp.Recv()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			return nil, errors.Wrap(err, "failed to receive result to find traces")
		}
		spans := chunk.GetResourceSpans()

		traces = append(traces, &Trace{Spans: spans})
	}

	return traces, nil
""", """	return receiveAll(resp)
}

func receiveAll(stream api_v3.QueryService_FindTracesClient) (traces []*Trace, err error) {
	var chunk *api_v3.SpansResponseChunk
	for chunk, err = stream.Recv(); err == nil; chunk, err = stream.Recv() {
		traces = append(traces, &Trace{Spans: chunk.GetResourceSpans()})
	}
	if !errors.Is(err, io.EOF) {
		return nil, errors.Wrap(err, "failed to receive result to find traces")
	}
	return traces, nil
"""))
good('r3-heap-evict', (HEAP, """	if h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
""", """	h.evict()
"""), (HEAP, """func (h LimitedHeap[T]) PopAll""", """// evict drops the smallest values so that limit is kept.
func (h LimitedHeap[T]) evict() {
	for h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
}

func (h LimitedHeap[T]) PopAll"""))
good('r3-heap-popall', (HEAP, """	var res []T
	for h.h.Len() > 0 {
		res = append(res, heap.Pop(h.h).(T))
	}

	return res
""", """	res := make([]T, 0, h.h.Len())
	for h.h.Len() != 0 {
		v := heap.Pop(h.h).(T)
		res = append(res, v)
	}
	return res
"""))
good('r3-heap-pop', (HEAP, """	l := len(h.vals) - 1
	v := h.vals[l]
	h.vals = h.vals[0:l]

	return v
""", """	old := h.vals
	n := len(old)
	last := old[n-1]
	h.vals = old[:n-1]
	return last
"""))
good('r3-compact-inline', (OTC, """	if !c.remains(span) {
		return
	}

	newParent := span""", """	isEntry := span.Parent == nil || span.Parent.ServiceName != span.ServiceName
	if !isEntry && !span.IsLastDbSpan() {
		return
	}

	newParent := span"""), (OTC, """func (c *traceCompacter) remains(span *Span) bool {
	if span.Parent == nil {
		return true
	}
	if span.Parent.ServiceName != span.ServiceName {
		return true
	}
	if span.IsLastDbSpan() {
		return true
	}

	return false
}
""", ""))
good('r3-compact-switch', (OTC, """	if span.Parent == nil {
		return true
	}
	if span.Parent.ServiceName != span.ServiceName {
		return true
	}
	if span.IsLastDbSpan() {
		return true
	}

	return false
""", """	switch {
	case span.Parent == nil:
		return true
	case span.Parent.ServiceName != span.ServiceName:
		return true
	default:
		return span.IsLastDbSpan()
	}
"""))
good('r3-compact-label-helper', (OTC, """	newParent := span.ShallowCopyWithoutDependency()
	if span.IsLastDbSpan() {
		newParent.ServiceName = fmt.Sprintf("%s (%s)", span.GetDBSystem(), newParent.ServiceName)
	}
""", """	newParent := c.copyOf(span)
"""), (OTC, """func (c *traceCompacter) remains""", """func (c *traceCompacter) copyOf(span *Span) *Span {
	copied := span.ShallowCopyWithoutDependency()
	if !span.IsLastDbSpan() {
		return copied
	}
	copied.ServiceName = fmt.Sprint(span.GetDBSystem(), " (", span.ServiceName, ")")
	return copied
}

func (c *traceCompacter) remains"""))
good('r3-compact-top', (OTT, """	if len(top.Children) > 0 {
		return &TraceTree{Root: top.Children[0]}
	} else {
		return &TraceTree{Root: nil}
	}
""", """	if len(top.Children) == 0 {
		return NewTraceTree(nil)
	}
	return NewTraceTree(top.Children[0])
"""))
good('r3-pick-filter', (TPK, """	return lo.Filter(tp.traces, func(tree *omodel.TraceTree, _ int) bool {
		return tree.MaxSameServiceAccessCount() > threshold
	})
""", """	var picked []*omodel.TraceTree
	for _, tree := range tp.traces {
		if tree.MaxSameServiceAccessCount() <= threshold {
			continue
		}
		picked = append(picked, tree)
	}
	return picked
"""))
good('r3-pick-sort', (TPK, """	slowTraces := lib.NewLimitedHeap[*omodel.TraceTree](num, func(a1, a2 *omodel.TraceTree) bool {
		return a1.Root.Duration() < a2.Root.Duration()
	})

	for _, tree := range tp.traces {
		slowTraces.Push(tree)
	}

	return lo.Reverse(slowTraces.PopAll())
""", """	sorted := make([]*omodel.TraceTree, len(tp.traces))
	copy(sorted, tp.traces)
	sort.SliceStable(sorted, func(i, j int) bool {
		return sorted[i].Root.Duration() > sorted[j].Root.Duration()
	})
	if len(sorted) > num {
		sorted = sorted[:num]
	}
	return sorted
"""), (TPK, """	"github.com/mrasu/GravityR/lib"
	"github.com/mrasu/GravityR/otel/omodel"
	"github.com/samber/lo"
""", """	"github.com/mrasu/GravityR/otel/omodel"
	"github.com/samber/lo"
	"sort"
"""))
good('r3-pick-reverse', (TPK, """	return lo.Reverse(slowTraces.PopAll())
""", """	ascending := slowTraces.PopAll()
	res := make([]*omodel.TraceTree, 0, len(ascending))
	for i := len(ascending) - 1; i >= 0; i-- {
		res = append(res, ascending[i])
	}
	return res
"""))
good('r3-pi-helper', (PSA, """			found := false
			for _, loadOfSql := range dbLoad.Sqls {
				if loadOfSql.Sql == avg.SQL {
					if loadOfSql.LoadMax < v.Value {
						loadOfSql.LoadMax = v.Value
					}
					loadOfSql.LoadSum += v.Value

					found = true
					break
				}
			}

			if !found {
				dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
					Sql:         avg.SQL,
					LoadMax:     v.Value,
					LoadSum:     v.Value,
					TokenizedId: avg.TokenizedId,
				})
			}
""", """			addLoad(dbLoad, avg, v.Value)
"""), (PSA, """func ConvertPi""", """func addLoad(dbLoad *viewmodel.VmDbLoad, avg *PiSQLLoadAvg, value float64) {
	for _, l := range dbLoad.Sqls {
		if l.Sql != avg.SQL {
			continue
		}
		l.LoadSum += value
		if value > l.LoadMax {
			l.LoadMax = value
		}
		return
	}

	dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
		Sql:         avg.SQL,
		LoadMax:     value,
		LoadSum:     value,
		TokenizedId: avg.TokenizedId,
	})
}

func ConvertPi"""))
good('r3-pi-getorcreate', (PSA, """			if _, ok := sqlLoadMap[baseTime]; !ok {
				sqlLoadMap[baseTime] = viewmodel.NewVmTimeDbLoad(baseTime)
			}
			if _, ok := dbLoadMap[baseTime]; !ok {
				dbLoadMap[baseTime] = map[string]*viewmodel.VmDbLoad{}
			}
			load := sqlLoadMap[baseTime]

			if _, ok := dbLoadMap[baseTime][avg.DbName]; !ok {
				dbLoad := viewmodel.NewVmDbLoad(avg.DbName)
				dbLoadMap[baseTime][avg.DbName] = dbLoad
				load.Databases = append(load.Databases, dbLoad)
			}
			dbLoad := dbLoadMap[baseTime][avg.DbName]
""", """			load, ok := sqlLoadMap[baseTime]
			if !ok {
				load = viewmodel.NewVmTimeDbLoad(baseTime)
				sqlLoadMap[baseTime] = load
				dbLoadMap[baseTime] = map[string]*viewmodel.VmDbLoad{}
			}
			loadsOfHour := dbLoadMap[baseTime]

			dbLoad := loadsOfHour[avg.DbName]
			if dbLoad == nil {
				dbLoad = viewmodel.NewVmDbLoad(avg.DbName)
				loadsOfHour[avg.DbName] = dbLoad
				load.Databases = append(load.Databases, dbLoad)
			}
"""))
good('r3-pi-hours', (PSA, """	target := lib.NormalizeTimeByHour(start.UTC())
	var res []*viewmodel.VmTimeDbLoad
	for !target.After(end) {
		if l, ok := sqlLoadMap[target]; ok {
			res = append(res, l)
		} else {
			res = append(res, viewmodel.NewVmTimeDbLoad(target))
		}
		target = target.Add(1 * time.Hour)
	}

	return res
""", """	var res []*viewmodel.VmTimeDbLoad
	for hour := lib.NormalizeTimeByHour(start.UTC()); !hour.After(end); hour = hour.Add(time.Hour) {
		l, ok := sqlLoadMap[hour]
		if !ok {
			l = viewmodel.NewVmTimeDbLoad(hour)
		}
		res = append(res, l)
	}

	return res
"""))
good('r3-pi-lo-find', (PSA, """			found := false
			for _, loadOfSql := range dbLoad.Sqls {
				if loadOfSql.Sql == avg.SQL {
					if loadOfSql.LoadMax < v.Value {
						loadOfSql.LoadMax = v.Value
					}
					loadOfSql.LoadSum += v.Value

					found = true
					break
				}
			}

			if !found {
				dbLoad""", """			loadOfSql, found := lo.Find(dbLoad.Sqls, func(l *viewmodel.VmDbLoadOfSql) bool { return l.Sql == avg.SQL })
			if found {
				if loadOfSql.LoadMax < v.Value {
					loadOfSql.LoadMax = v.Value
				}
				loadOfSql.LoadSum += v.Value
			} else {
				dbLoad"""), (PSA, """	"github.com/mrasu/GravityR/lib"
""", """	"github.com/mrasu/GravityR/lib"
	"github.com/samber/lo"
"""))
good('r3-pif-skip', (PIF, """			if dp.Timestamp == nil {
				continue
			}

			if dp.Value == nil {
				continue
			}
			if *dp.Value == 0 {
				continue
			}
			sla.Values = append(sla.Values, &PiTimeValue{
				Value: *dp.Value,
				Time:  *dp.Timestamp,
			})
""", """			if dp.Timestamp != nil && dp.Value != nil && *dp.Value != 0 {
				sla.Values = append(sla.Values, &PiTimeValue{
					Value: *dp.Value,
					Time:  *dp.Timestamp,
				})
			}
"""))
good('r3-pif-split', (PIF, """		sla := NewPiSQLLoadAvg(
			db.InstanceIdentifier,
			m.Key.Dimensions[sqlKey],
			m.Key.Dimensions[tokenizedIdKey],
		)
		res = append(res, sla)

		for _, dp := range m.DataPoints {
			if dp.Timestamp == nil {
				continue
			}

			if dp.Value == nil {
				continue
			}
			if *dp.Value == 0 {
				continue
			}
			sla.Values = append(sla.Values, &PiTimeValue{
				Value: *dp.Value,
				Time:  *dp.Timestamp,
			})
		}
	}

	return res
""", """		dims := m.Key.Dimensions
		sla := NewPiSQLLoadAvg(db.InstanceIdentifier, dims[sqlKey], dims[tokenizedIdKey])
		sla.Values = toTimeValues(m.DataPoints)
		res = append(res, sla)
	}

	return res
"""), (PIF, """func (pi *PerformanceInsights) convert""", """func toTimeValues(points []types.DataPoint) []*PiTimeValue {
	var values []*PiTimeValue
	for _, dp := range points {
		if dp.Timestamp == nil || aws.ToFloat64(dp.Value) == 0 {
			continue
		}
		values = append(values, &PiTimeValue{Value: *dp.Value, Time: *dp.Timestamp})
	}
	return values
}

func (pi *PerformanceInsights) convert"""))
good('r3-pif-valid-helper', (PIF, """		if m.Key == nil || m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
			continue
		}
		if m.Key.Dimensions == nil {
			continue
		}
""", """		if !isLoadAvg(m) {
			continue
		}
"""), (PIF, """func (pi *PerformanceInsights) convert""", """func isLoadAvg(m types.MetricKeyDataPoints) bool {
	key := m.Key
	if key == nil || key.Dimensions == nil {
		return false
	}
	return aws.ToString(key.Metric) == loadAvgMetricName
}

func (pi *PerformanceInsights) convert"""))
good('r3-picmd-collect', (PICMD, """		current := startFrom
		for i := 0; i < 14; i++ {
			log""", """		for i := 0; i < 14; i++ {
			current := startFrom.Add(time.Duration(i) * 12 * time.Hour)
			log"""), (PICMD, """
			current = current.Add(12 * time.Hour)
""", ""))
good('r3-picmd-cond', (PICMD, """		for i := 0; i < 14; i++ {""", """		for current.Before(end) {"""))
good('r3-picmd-start-helper', (PICMD, """	startFrom := time.Now().Add(-7 * 24 * time.Hour)
	if pr.start != "" {
		t, err := time.Parse(time.RFC3339, pr.start)
		if err != nil {
			return errors.Wrap(err, "Invalid format")
		}
		startFrom = t
	}
""", """	startFrom, err := pr.parseStart(time.Now())
	if err != nil {
		return err
	}
"""), (PICMD, """func (pr *piRunner) dig(""", """func (pr *piRunner) parseStart(now time.Time) (time.Time, error) {
	if pr.start == "" {
		return now.AddDate(0, 0, -7), nil
	}
	t, err := time.Parse(time.RFC3339, pr.start)
	if err != nil {
		return time.Time{}, errors.Wrap(err, "Invalid format")
	}
	return t, nil
}

func (pr *piRunner) dig("""))
good('r3-picmd-fetch-helper', (PICMD, """			avgs, err := piCli.GetHalfDaySqlMetrics(db, current)
			if err != nil {
				return err
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)

			tAvgs, err := piCli.GetHalfDayTokenizedSqlMetrics(db, current)
			if err != nil {
				return err
			}
			tokenizedSqlLoadAvgs = append(tokenizedSqlLoadAvgs, tAvgs...)
""", """			avgs, tAvgs, err := fetchHalfDay(piCli, db, current)
			if err != nil {
				return err
			}
			sqlLoadAvgs = append(sqlLoadAvgs, avgs...)
			tokenizedSqlLoadAvgs = append(tokenizedSqlLoadAvgs, tAvgs...)
"""), (PICMD, """func (pr *piRunner) dig(""", """func fetchHalfDay(piCli *aws.PerformanceInsights, db *aws.RdsDB, from time.Time) (avgs, tokenized []*aws.PiSQLLoadAvg, err error) {
	if avgs, err = piCli.GetHalfDaySqlMetrics(db, from); err != nil {
		return
	}
	tokenized, err = piCli.GetHalfDayTokenizedSqlMetrics(db, from)
	return
}

func (pr *piRunner) dig("""))
good('r3-v1-index-helper', (V1C, """				id := string(span.SpanId)
				if _, ok := spanIdMap[id]; !ok {
					spanIds = append(spanIds, id)
				}
				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
""", """				id := string(span.SpanId)
				_, known := spanIdMap[id]
				spanIdMap[id] = &spanHolder{orig: span, span: c.toOmodelSpan(span, rSpan)}
				if !known {
					spanIds = append(spanIds, id)
				}
"""))
good('r3-v1-attach', (V1C, """		h := spanIdMap[id]
		if c.isRootSpan(h.orig) {
			roots = append(roots, h.span)
			continue
		}

		if parent, ok := spanIdMap[string(h.orig.ParentSpanId)]; ok {
			parent.span.Children = append(parent.span.Children, h.span)
			h.span.Parent = parent.span
		} else {
			roots = append(roots, h.span)
		}
""", """		h := spanIdMap[id]
		parent := c.findParent(spanIdMap, h)
		if parent == nil {
			roots = append(roots, h.span)
			continue
		}

		h.span.Parent = parent
		parent.Children = append(parent.Children, h.span)
"""), (V1C, """func (c *v1Converter) toOmodelSpan""", """// findParent returns nil when span is root or its parent is not collected.
func (c *v1Converter) findParent(holders map[string]*spanHolder, h *spanHolder) *omodel.Span {
	if c.isRootSpan(h.orig) {
		return nil
	}
	if parent, ok := holders[string(h.orig.ParentSpanId)]; ok {
		return parent.span
	}
	return nil
}

func (c *v1Converter) toOmodelSpan"""))
good('r3-v1-service', (V1C, """	serviceName := ""
	if rs.Resource != nil {
		for _, r := range rs.Resource.Attributes {
			if r.Key == string(semconv.ServiceNameKey) {
				serviceName = r.Value.GetStringValue()
				break
			}
		}
	}
""", """	serviceName := findServiceName(rs)
"""), (V1C, """func (c *v1Converter) toAnyValue(""", """func findServiceName(rs *v1Trace.ResourceSpans) string {
	for _, attr := range rs.GetResource().GetAttributes() {
		if attr.GetKey() == string(semconv.ServiceNameKey) {
			return attr.GetValue().GetStringValue()
		}
	}
	return ""
}

func (c *v1Converter) toAnyValue("""))
good('r3-v1-roots-loop', (V1C, """	return lo.Map(roots, func(root *omodel.Span, _ int) *omodel.TraceTree {
		root.SortChildren()
		return omodel.NewTraceTree(root)
	})
""", """	trees := make([]*omodel.TraceTree, 0, len(roots))
	for _, root := range roots {
		root.SortChildren()
		trees = append(trees, omodel.NewTraceTree(root))
	}
	return trees
"""), (V1C, '	"github.com/samber/lo"\n', ''))
good('r3-jcmd-start', (JCMD, """	if jr.startStr != "" {
		var err error
		jr.start, err = time.Parse(time.RFC3339, jr.startStr)
		if err != nil {
			return errors.Wrap(err, "invalid format at StartAt")
		}
	} else {
		jr.start = now.Add(-24 * time.Hour)
	}

	jr.end = jr.start.Add(24 * time.Hour)
	if jr.end.After(now) {
		jr.end = now
	}
""", """	if err := jr.setRange(now); err != nil {
		return err
	}
"""), (JCMD, """func (jr *jaegerRunner) run()""", """func (jr *jaegerRunner) setRange(now time.Time) error {
	const day = 24 * time.Hour

	jr.start = now.Add(-day)
	if jr.startStr != "" {
		start, err := time.Parse(time.RFC3339, jr.startStr)
		if err != nil {
			return errors.Wrap(err, "invalid format at StartAt")
		}
		jr.start = start
	}

	end := jr.start.Add(day)
	if now.Before(end) {
		end = now
	}
	jr.end = end
	return nil
}

func (jr *jaegerRunner) run()"""))
good('r3-jcmd-html', (JCMD, """	slows := lo.Map(slowTraces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})
	sameServices := lo.Map(sameServiceTraces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})

	bo := html.NewDigJaegerBuildOption(
		jr.uiURL,
		jr.durationMilli,
		jr.sameServiceThreshold,
		slows,
		sameServices,
	)

	err := html.CreateHtml(html.TypeMermaid, outputPath, bo)
	if err != nil {
		return err
	}
	return nil
""", """	bo := html.NewDigJaegerBuildOption(
		jr.uiURL,
		jr.durationMilli,
		jr.sameServiceThreshold,
		toVms(slowTraces),
		toVms(sameServiceTraces),
	)

	return html.CreateHtml(html.TypeMermaid, outputPath, bo)
}

func toVms(traces []*omodel.TraceTree) []*viewmodel.VmOtelCompactTrace {
	var vms []*viewmodel.VmOtelCompactTrace
	for _, t := range traces {
		vms = append(vms, t.ToCompactViewModel())
	}
	return vms
"""), (JCMD, '	"github.com/samber/lo"\n', ''))
good('r3-hc-resolve', (HCL, """	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
""", """	return c.baseURL.JoinPath(pathname).String()
"""), (HCL, '	"path"\n', ''))
good('r3-hc-post-split', (HCL, """	b, err := json.Marshal(body)
	if err != nil {
		return nil, errors.Wrap(err, "failed to marshal request body")
	}
	req, err := http.NewRequest("POST", c.resolveURL(pathname), bytes.NewReader(b))
	if err != nil {
		return nil, errors.Wrap(err, fmt.Sprintf("failed to create POST request to %s", pathname))
	}
	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
	res, err := http.DefaultClient.Do(req)
""", """	req, err := c.newRequest(pathname, body)
	if err != nil {
		return nil, err
	}
	res, err := http.DefaultClient.Do(req)
"""), (HCL, """func (c *Client) resolveURL""", """func (c *Client) newRequest(pathname string, body interface{}) (*http.Request, error) {
	b, err := json.Marshal(body)
	if err != nil {
		return nil, errors.Wrap(err, "failed to marshal request body")
	}
	req, err := http.NewRequest(http.MethodPost, c.resolveURL(pathname), bytes.NewBuffer(b))
	if err != nil {
		return nil, errors.Wrap(err, fmt.Sprintf("failed to create POST request to %s", pathname))
	}
	for name, value := range c.headers {
		req.Header.Set(name, value)
	}
	return req, nil
}

func (c *Client) resolveURL"""))
good('r3-hc-post-status', (HCL, """	if res.StatusCode != 200 {
		text, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return io.ReadAll(res.Body)
""", """	text, err := io.ReadAll(res.Body)
	ok := res.StatusCode == http.StatusOK
	switch {
	case err != nil && !ok:
		return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
	case err != nil:
		return nil, err
	case !ok:
		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}
	return text, nil
"""))
good('r3-hc-decode-helper', (HCL, """	res, err := c.post(explainPath, body)
	if err != nil {
		return nil, err
	}
	var eres []*ExplainResponse
	err = json.Unmarshal(res, &eres)
	if err != nil {
		return nil, errors.Wrap(err, "failed to decode response from Hasura")
	}
	return eres, nil
""", """	var eres []*ExplainResponse
	if err := c.postAndDecode(explainPath, body, &eres); err != nil {
		return nil, err
	}
	return eres, nil
"""), (HCL, """func (c *Client) resolveURL""", """func (c *Client) postAndDecode(pathname string, body, dest interface{}) error {
	res, err := c.post(pathname, body)
	if err != nil {
		return err
	}
	return errors.Wrap(json.Unmarshal(res, dest), "failed to decode response from Hasura")
}

func (c *Client) resolveURL"""))
good('r3-mcf-struct', (MCF, """	protocol := os.Getenv("DB_PROTOCOL")
	if len(protocol) == 0 {
		protocol = "tcp"
	}
	cfg.Net = protocol

	address := os.Getenv("DB_ADDRESS")
	if len(address) > 0 {
		cfg.Addr = address
	}
""", """	cfg.Net = envOr("DB_PROTOCOL", "tcp")
	cfg.Addr = envOr("DB_ADDRESS", cfg.Addr)
"""), (MCF, """func (cfg *Config) ToDSN""", """func envOr(key, fallback string) string {
	if v := os.Getenv(key); v != "" {
		return v
	}
	return fallback
}

func (cfg *Config) ToDSN"""))
good('r3-mcf-dsn', (MCF, """	dsn := cfg.config.FormatDSN()
	if len(cfg.paramText) > 0 {
		dsn += "?" + cfg.paramText
	}

	return dsn
""", """	if cfg.paramText == "" {
		return cfg.config.FormatDSN()
	}
	return fmt.Sprintf("%s?%s", cfg.config.FormatDSN(), cfg.paramText)
"""), (MCF, 'import (\n', 'import (\n	"fmt"\n'))
good('r3-pcf-pairs', (PCF, """	var texts []string
	if cfg.user != "" {
		texts = append(texts, "user="+quoteKVValue(cfg.user))
	}
	if cfg.password != "" {
		texts = append(texts, "password="+quoteKVValue(cfg.password))
	}
	if cfg.host != "" {
		texts = append(texts, "host="+quoteKVValue(cfg.host))
	}
	if cfg.port != "" {
		texts = append(texts, "port="+quoteKVValue(cfg.port))
	}
	if cfg.DBName != "" {
		texts = append(texts, "dbname="+quoteKVValue(cfg.DBName))
	}
	texts""", """	var texts []string
	texts = appendKV(texts, "user", cfg.user)
	texts = appendKV(texts, "password", cfg.password)
	texts = appendKV(texts, "host", cfg.host)
	texts = appendKV(texts, "port", cfg.port)
	texts = appendKV(texts, "dbname", cfg.DBName)
	texts"""), (PCF, """func (cfg *Config) GetSearchPath""", """func appendKV(texts []string, key, value string) []string {
	if value == "" {
		return texts
	}
	return append(texts, key+"="+quoteKVValue(value))
}

func (cfg *Config) GetSearchPath"""))
good('r3-mii-ptr', (MII, """	var infos []*IndexInfo

	lastTName := ""
	lastIName := ""
	for _, flatInfo := range orderedFlatInfo {
		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}

		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
	}
""", """	var infos []*IndexInfo

	lastTName := ""
	lastIName := ""
	for _, flatInfo := range orderedFlatInfo {
		if lastTName != flatInfo.TableName || lastIName != flatInfo.IndexName {
			infos = append(infos, &IndexInfo{TableName: flatInfo.TableName})
			lastTName, lastIName = flatInfo.TableName, flatInfo.IndexName
		}
		idx := infos[len(infos)-1]
		idx.Columns = append(idx.Columns, flatInfo.ColumnName)
	}
"""))
good('r3-mii-current', (MII, """	lastTName := ""
	lastIName := ""
	for _, flatInfo := range orderedFlatInfo {
		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}

		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
	}
""", """	var prev *flatIndexInfo
	var current *IndexInfo
	for _, info := range orderedFlatInfo {
		if prev == nil || prev.TableName != info.TableName || prev.IndexName != info.IndexName {
			current = &IndexInfo{TableName: info.TableName}
			infos = append(infos, current)
		}
		current.Columns = append(current.Columns, info.ColumnName)
		prev = info
	}
"""))
good('r3-hii-slice', (HII, """	for i, r := range res.Result {
		if i == 0 {
			// first row shows name of columns
			continue
		}

		if""", """	if len(res.Result) == 0 {
		return nil, nil
	}
	// first row shows name of columns
	for _, r := range res.Result[1:] {
		if"""))
good('r3-hii-row-helper', (HII, """		if len(r) < 2 {
			return nil, errors.Errorf("unexpected result from hasura to fetch indexes: %d values exist in a row", len(r))
		}

		cols := pq.StringArray{}
		err := cols.Scan(r[1])
		if err != nil {
			return nil, errors.Wrap(err, "unexpected result from hasura to fetch indexes: not array of string for column names")
		}

		infos = append(infos, &IndexInfo{
			TableName: r[0],
			Columns:   cols,
		})
""", """		info, err := parseIndexRow(r)
		if err != nil {
			return nil, err
		}
		infos = append(infos, info)
"""), (HII, """func parseIndexFetchResult""", """func parseIndexRow(r []string) (*IndexInfo, error) {
	if len(r) < 2 {
		return nil, errors.Errorf("unexpected result from hasura to fetch indexes: %d values exist in a row", len(r))
	}

	var cols pq.StringArray
	if err := cols.Scan(r[1]); err != nil {
		return nil, errors.Wrap(err, "unexpected result from hasura to fetch indexes: not array of string for column names")
	}
	return &IndexInfo{TableName: r[0], Columns: cols}, nil
}

func parseIndexFetchResult"""))
bad('r3-mii-late-open', 'P17', (MII, """		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}

		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
	}
""", """		if len(infos) == 0 || lastTName != flatInfo.TableName {
			infos = append(infos, &IndexInfo{TableName: flatInfo.TableName})
			lastTName, lastIName = flatInfo.TableName, flatInfo.IndexName
		}
		_ = lastIName
		idx := infos[len(infos)-1]
		idx.Columns = append(idx.Columns, flatInfo.ColumnName)
	}
"""))
bad('r3-mii-stale', 'P17', (MII, """	lastTName := ""
	lastIName := ""
	for _, flatInfo := range orderedFlatInfo {
		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
			idx := infos[len(infos)-1]
			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
		} else {
			infos = append(infos, &IndexInfo{
				TableName: flatInfo.TableName,
				Columns:   []string{flatInfo.ColumnName},
			})
		}

		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
	}
""", """	var prev *flatIndexInfo
	var current *IndexInfo
	for _, info := range orderedFlatInfo {
		if prev == nil || prev.IndexName != info.IndexName {
			current = &IndexInfo{TableName: info.TableName}
			infos = append(infos, current)
		}
		current.Columns = append(current.Columns, info.ColumnName)
		prev = info
	}
"""))

# fourth series of edits that keep the behaviour: collecting names, reading plans
good('r4-ms-list-helper', (MSC, """	case *ast.RowExpr:
		for _, v := range e.Values {
			res = append(res, sc.collectExprReferences(v, defaultType)...)
		}
""", """	case *ast.RowExpr:
		return sc.collectAll(defaultType, e.Values...)
"""), (MSC, """	case *ast.BinaryOperationExpr:
		res = append(res, sc.collectExprReferences(e.L, defaultType)...)
		res = append(res, sc.collectExprReferences(e.R, defaultType)...)
""", """	case *ast.BinaryOperationExpr:
		return sc.collectAll(defaultType, e.L, e.R)
"""), (MSC, """	case *ast.FuncCallExpr:
		for _, arg := range e.Args {
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
		}
""", """	case *ast.FuncCallExpr:
		return sc.collectAll(defaultType, e.Args...)
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func (sc *scopeCollector) collectAll(defaultType dparser.FieldType, exprs ...ast.ExprNode) []*dparser.FieldColumn {
	var res []*dparser.FieldColumn
	for _, expr := range exprs {
		res = append(res, sc.collectExprReferences(expr, defaultType)...)
	}
	return res
}

func (sc *scopeCollector) collectTables("""))
good('r4-ms-case-helper', (MSC, """		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
		for _, w := range e.WhenClauses {
			res = append(res, sc.collectExprReferences(w.Expr, defaultType)...)
			res = append(res, sc.collectExprReferences(w.Result, defaultType)...)
		}
		res = append(res, sc.collectExprReferences(e.ElseClause, defaultType)...)
""", """		res = sc.collectCase(e, defaultType)
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func (sc *scopeCollector) collectCase(c *ast.CaseExpr, defaultType dparser.FieldType) []*dparser.FieldColumn {
	exprs := []ast.ExprNode{c.Value}
	for _, when := range c.WhenClauses {
		exprs = append(exprs, when.Expr, when.Result)
	}
	exprs = append(exprs, c.ElseClause)

	var cols []*dparser.FieldColumn
	for _, expr := range exprs {
		cols = append(cols, sc.collectExprReferences(expr, defaultType)...)
	}
	return cols
}

func (sc *scopeCollector) collectTables("""))
good('r4-ms-orderby-helper', (MSC, """	if stmt.GroupBy != nil {
		for _, item := range stmt.GroupBy.Items {
			f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
			if err == nil {
				foundFields = append(foundFields, f)
			} else {
				sc.errors = append(sc.errors, err)
			}
		}
	}
""", """	if stmt.GroupBy != nil {
		foundFields = append(foundFields, sc.collectByItems(stmt.GroupBy.Items)...)
	}
"""), (MSC, """	if stmt.OrderBy != nil {
		for _, item := range stmt.OrderBy.Items {
			f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
			if err == nil {
				foundFields = append(foundFields, f)
			} else {
				sc.errors = append(sc.errors, err)
			}
		}
	}
""", """	if stmt.OrderBy != nil {
		foundFields = append(foundFields, sc.collectByItems(stmt.OrderBy.Items)...)
	}
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func (sc *scopeCollector) collectByItems(items []*ast.ByItem) []*dparser.Field {
	var fields []*dparser.Field
	for _, item := range items {
		f, err := sc.createFieldFromExpr(item.Expr, dparser.FieldReference)
		if err != nil {
			sc.errors = append(sc.errors, err)
			continue
		}
		fields = append(fields, f)
	}
	return fields
}

func (sc *scopeCollector) collectTables("""))
good('r4-ms-add-closure', (MSC, """	if stmt.Limit != nil {
		f, err := sc.createFieldFromExpr(stmt.Limit.Count, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}

		f, err = sc.createFieldFromExpr(stmt.Limit.Offset, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
""", """	if stmt.Limit != nil {
		add := func(expr ast.ExprNode) {
			f, err := sc.createFieldFromExpr(expr, dparser.FieldReference)
			if err != nil {
				sc.errors = append(sc.errors, err)
				return
			}
			foundFields = append(foundFields, f)
		}
		add(stmt.Limit.Count)
		add(stmt.Limit.Offset)
	}
"""))
good('r4-ms-window-merge', (MSC, """		if e.Spec.PartitionBy != nil {
			for _, i := range e.Spec.PartitionBy.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
		if e.Spec.OrderBy != nil {
			for _, i := range e.Spec.OrderBy.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
""", """		var items []*ast.ByItem
		if p := e.Spec.PartitionBy; p != nil {
			items = append(items, p.Items...)
		}
		if o := e.Spec.OrderBy; o != nil {
			items = append(items, o.Items...)
		}
		for _, i := range items {
			res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
		}
"""))
good('r4-ms-not-select', (MSC, """	rootNode.Accept(sc)
	if len(sc.errors) > 0 {
		return nil, sc.errors
	}

	return sc.scopes, nil
""", """	rootNode.Accept(sc)
	if len(sc.errors) == 0 {
		return sc.scopes, nil
	}

	return nil, sc.errors
"""), (MSC, """	if _, ok := rootNode.(*ast.SetOprStmt); ok {
		return nil, []error{lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")}
	}
	if _, ok := rootNode.(*ast.SelectStmt); !ok {
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
""", """	switch rootNode.(type) {
	case *ast.SelectStmt:
	case *ast.SetOprStmt:
		return nil, []error{lib.NewUnsupportedError("not supporting UNION, EXCEPT etc.")}
	default:
		return nil, []error{lib.NewUnsupportedError("only SELECT query is supported")}
	}
"""))
good('r4-ms-schema-helper', (MSC, """			if src.Schema.O != "" {
				sc.lastError = lib.NewUnsupportedError(
					fmt.Sprintf("not supporting query referencing database explicitly: %s.%s", src.Schema.O, src.Name.O),
				)
				return nil, nil
			}
			tables = append(tables, &dparser.Table{AsName: n.AsName.L, Name: src.Name.L})
""", """			table, err := toTable(n, src)
			if err != nil {
				sc.lastError = err
				return nil, nil
			}
			tables = append(tables, table)
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func toTable(n *ast.TableSource, src *ast.TableName) (*dparser.Table, error) {
	if src.Schema.O == "" {
		return &dparser.Table{AsName: n.AsName.L, Name: src.Name.L}, nil
	}
	return nil, lib.NewUnsupportedError(
		fmt.Sprintf("not supporting query referencing database explicitly: %s.%s", src.Schema.O, src.Name.O),
	)
}

func (sc *scopeCollector) collectTables("""))
good('r4-ms-using-lo', (MSC, """	for _, c := range j.Using {
		fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: c.Table.L, Name: c.Name.L, Type: dparser.FieldCondition}}})
	}
	if j.On != nil {""", """	fields = append(fields, lo.Map(j.Using, func(c *ast.ColumnName, _ int) *dparser.Field {
		return &dparser.Field{Columns: []*dparser.FieldColumn{toFieldColumn(c, dparser.FieldCondition)}}
	})...)
	if j.On != nil {"""), (MSC, """		return []*dparser.FieldColumn{{Table: e.Name.Table.L, Name: e.Name.Name.L, Type: defaultType}}
""", """		return []*dparser.FieldColumn{toFieldColumn(e.Name, defaultType)}
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func toFieldColumn(c *ast.ColumnName, t dparser.FieldType) *dparser.FieldColumn {
	return &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: t}
}

func (sc *scopeCollector) collectTables("""), (MSC, """	"github.com/pingcap/tidb/parser/ast"
""", """	"github.com/pingcap/tidb/parser/ast"
	"github.com/samber/lo"
"""))
good('r4-mex-simplify', (MEX, """		if nodeStack.Size()-1 == nest {
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else if nodeStack.Size()-1 > nest {
			nodeStack.Pop()
			for nodeStack.Size()-1 > nest {
				nodeStack.Pop()
			}
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {
			return nil, errors.New("invalid result from EXPLAIN ANALYZE")
		}

		nodeStack.Push(n)
""", """		if nest > nodeStack.Size()-1 {
			return nil, errors.New("invalid result from EXPLAIN ANALYZE")
		}
		for nodeStack.Size()-1 > nest {
			nodeStack.Pop()
		}
		parent := nodeStack.Top()
		parent.Children = append(parent.Children, n)

		nodeStack.Push(n)
"""))
good('r4-mex-attach-helper', (MEX, """			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else if""", """			addChild(nodeStack.Top(), n)
		} else if"""), (MEX, """			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {""", """			addChild(nodeStack.Top(), n)
		} else {"""), (MEX, """func (e *Explainer) buildExplainNode""", """func addChild(parent, child *mmodel.ExplainAnalyzeTreeNode) {
	parent.Children = append(parent.Children, child)
}

func (e *Explainer) buildExplainNode"""))
good('r4-mrl-split', (MRL, """	am := analyzeActualReg.FindStringSubmatch(line)
	if am != nil {
		timeFirst, err := strconv.ParseFloat(am[1], 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[1], line))
		}
		resLine.ActualTimeFirstRow = null.FloatFrom(timeFirst)

		time, err := strconv.ParseFloat(am[2], 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[2], line))
		}
		resLine.ActualTimeAvg = null.FloatFrom(time)

		rowNum, err := strconv.ParseInt(am[3], 10, 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[3], line))
		}
		resLine.ActualReturnedRows = null.IntFrom(rowNum)

		loopNum, err := strconv.ParseInt(am[4], 10, 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", am[4], line))
		}
		resLine.ActualLoopCount = null.IntFrom(loopNum)
	}
""", """	if err := resLine.parseActual(line); err != nil {
		return 0, nil, err
	}
"""), (MRL, """func extractTable""", """func (l *ExplainAnalyzeResultLine) parseActual(line string) error {
	m := analyzeActualReg.FindStringSubmatch(line)
	if m == nil {
		return nil
	}

	var err error
	if l.ActualTimeFirstRow, err = parseFloat(m[1], line); err != nil {
		return err
	}
	if l.ActualTimeAvg, err = parseFloat(m[2], line); err != nil {
		return err
	}
	if l.ActualReturnedRows, err = parseInt(m[3], line); err != nil {
		return err
	}
	l.ActualLoopCount, err = parseInt(m[4], line)
	return err
}

func parseFloat(text, line string) (null.Float, error) {
	v, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return null.Float{}, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", text, line))
	}
	return null.FloatFrom(v), nil
}

func parseInt(text, line string) (null.Int, error) {
	v, err := strconv.ParseInt(text, 10, 64)
	if err != nil {
		return null.Int{}, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", text, line))
	}
	return null.IntFrom(v), nil
}

func extractTable"""))
good('r4-mrl-extract-loop', (MRL, """	m := onReg.FindStringSubmatch(line)
	if m != nil {
		return m[1]
	}

	m = filterReg.FindStringSubmatch(line)
	if m != nil {
		return m[1]
	}

	m = sortReg.FindStringSubmatch(line)
	if m != nil {
		return m[1]
	}

	m = aggregateReg.FindStringSubmatch(line)
	if m != nil {
		return m[1]
	}

	return ""
""", """	for _, reg := range []*regexp.Regexp{onReg, filterReg, sortReg, aggregateReg} {
		if m := reg.FindStringSubmatch(line); m != nil {
			return m[1]
		}
	}

	return ""
"""))
good('r4-mrl-est', (MRL, """		if em[2] == "" {
			cost, err := strconv.ParseFloat(em[1], 64)
			if err != nil {
				return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", em[1], line))
			}
			resLine.EstimatedCost = null.FloatFrom(cost)
		} else {
			initCost, err := strconv.ParseFloat(em[1], 64)
			if err != nil {
				return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", em[1], line))
			}
			resLine.EstimatedInitCost = null.FloatFrom(initCost)
			cost,""", """		first, err := strconv.ParseFloat(em[1], 64)
		if err != nil {
			return 0, nil, errors.Wrap(err, fmt.Sprintf("failed to parse analyze(%s): %s", em[1], line))
		}
		if em[2] == "" {
			resLine.EstimatedCost = null.FloatFrom(first)
		} else {
			resLine.EstimatedInitCost = null.FloatFrom(first)
			cost,"""))
good('r4-ptb-simplify', (PTB, """		if nodeStack.Top().SpaceSize < spaceSize {
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		} else {
			nodeStack.Pop()
			for nodeStack.Top().SpaceSize >= spaceSize {
				nodeStack.Pop()
			}
			currentNode := nodeStack.Top()
			currentNode.Children = append(currentNode.Children, n)
		}

		nodeStack.Push(n)
""", """		for nodeStack.Top().SpaceSize >= spaceSize {
			nodeStack.Pop()
		}
		parent := nodeStack.Top()
		parent.Children = append(parent.Children, n)

		nodeStack.Push(n)
"""))
good('r4-ptb-flush', (PTB, """	for i, line := range explainLines {
		if summary""", """	flush := func() {
		if len(nodeLines) > 0 {
			lineNodes = append(lineNodes, nodeLines)
			nodeLines = nil
		}
	}
	for i, line := range explainLines {
		if summary"""), (PTB, """				if len(nodeLines) > 0 {
					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
		}
		if info""", """				flush()
			}
		}
		if info"""), (PTB, """				if len(nodeLines) > 0 {
					lineNodes = append(lineNodes, nodeLines)
					nodeLines = nil
				}
			}
			nodeLines""", """				flush()
			}
			nodeLines"""), (PTB, """			if len(nodeLines) > 0 {
				lineNodes = append(lineNodes, nodeLines)
				nodeLines = nil
			}
			nodeLines""", """			flush()
			nodeLines"""), (PTB, """	if len(nodeLines) > 0 {
		lineNodes = append(lineNodes, nodeLines)
	}
""", """	flush()
"""))
good('r4-ptb-switch', (PTB, """		if infoRowReg.MatchString(line) {
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineInfo
		} else if arrowRowReg.MatchString(line) {
			if""", """		switch {
		case infoRowReg.MatchString(line):
			nodeLines = append(nodeLines, line)
			prevLineType = analyzeLineInfo
		case arrowRowReg.MatchString(line):
			if"""), (PTB, """			prevLineType = analyzeLineArrow
		} else {
			if len""", """			prevLineType = analyzeLineArrow
		default:
			if len"""))
good('r4-ptb-summary', (PTB, """	sLine := ""
	if summaryStartLine > 0 {
		sLine = strings.Join(explainLines[summaryStartLine:], "\\n")
	}

	return lineNodes, sLine
""", """	if summaryStartLine == 0 {
		return lineNodes, ""
	}
	return lineNodes, strings.Join(explainLines[summaryStartLine:], "\\n")
"""))
good('r4-ers-map', (ERS, """	var virs []*viewmodel.VmExaminationIndexResult
	for _, ir := range er.IndexResults {
		virs = append(virs, ir.ToViewModel())
	}

	return &viewmodel.VmExaminationResult{
		OriginalTimeMillis: er.OriginalTimeMillis,
		IndexResults:       virs,
	}
""", """	vm := &viewmodel.VmExaminationResult{
		OriginalTimeMillis: er.OriginalTimeMillis,
		IndexResults:       make([]*viewmodel.VmExaminationIndexResult, len(er.IndexResults)),
	}
	for i := range er.IndexResults {
		vm.IndexResults[i] = er.IndexResults[i].ToViewModel()
	}
	return vm
"""))
bad('r4-ms-window-merge-bad', 'P07', (MSC, """		if e.Spec.PartitionBy != nil {
			for _, i := range e.Spec.PartitionBy.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
		if e.Spec.OrderBy != nil {
			for _, i := range e.Spec.OrderBy.Items {
				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
			}
		}
""", """		var items []*ast.ByItem
		if p := e.Spec.PartitionBy; p != nil {
			items = append(items, p.Items...)
		} else if o := e.Spec.OrderBy; o != nil {
			items = append(items, o.Items...)
		}
		for _, i := range items {
			res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
		}
"""))
bad('r4-ms-case-helper-bad', 'P07', (MSC, """		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
		for _, w := range e.WhenClauses {
			res = append(res, sc.collectExprReferences(w.Expr, defaultType)...)
			res = append(res, sc.collectExprReferences(w.Result, defaultType)...)
		}
		res = append(res, sc.collectExprReferences(e.ElseClause, defaultType)...)
""", """		res = sc.collectCase(e, defaultType)
"""), (MSC, """func (sc *scopeCollector) collectTables(""", """func (sc *scopeCollector) collectCase(c *ast.CaseExpr, defaultType dparser.FieldType) []*dparser.FieldColumn {
	exprs := []ast.ExprNode{c.Value}
	for _, when := range c.WhenClauses {
		exprs = append(exprs, when.Expr, when.Result)
	}
	exprs = append(exprs, c.ElseClause)

	var cols []*dparser.FieldColumn
	for _, expr := range exprs {
		cols = append(cols, sc.collectExprReferences(expr, defaultType)...)
		if len(cols) > 3 {
			break
		}
	}
	return cols
}

func (sc *scopeCollector) collectTables("""))

# fifth series of edits that keep the behaviour: PostgreSQL's names, the commands
good('r5-ps-list-helper', (PSC, """	case *tree.CaseExpr:
		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
		for _, w := range e.Whens {
			res = append(res, sc.collectExprReferences(w.Cond, defaultType)...)
			res = append(res, sc.collectExprReferences(w.Val, defaultType)...)
		}
		res = append(res, sc.collectExprReferences(e.Else, defaultType)...)
""", """	case *tree.CaseExpr:
		res = append(res, sc.collectAll(defaultType, e.Expr)...)
		for i := range e.Whens {
			res = append(res, sc.collectAll(defaultType, e.Whens[i].Cond, e.Whens[i].Val)...)
		}
		res = append(res, sc.collectAll(defaultType, e.Else)...)
"""), (PSC, """	case *tree.IfExpr:
		// cockroachdb's special expression?
		res = append(res, sc.collectExprReferences(e.Cond, defaultType)...)
		res = append(res, sc.collectExprReferences(e.True, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Else, defaultType)...)
""", """	case *tree.IfExpr:
		// cockroachdb's special expression?
		res = sc.collectAll(defaultType, e.Cond, e.True, e.Else)
"""), (PSC, """	case *tree.CoalesceExpr:
		for _, ex := range e.Exprs {
			res = append(res, sc.collectExprReferences(ex, defaultType)...)
		}
""", """	case *tree.CoalesceExpr:
		res = sc.collectAll(defaultType, e.Exprs...)
"""), (PSC, """func (sc *scopeCollector) collectJoinReferences(""", """func (sc *scopeCollector) collectAll(defaultType dparser.FieldType, exprs ...tree.Expr) (res []*dparser.FieldColumn) {
	for _, ex := range exprs {
		res = append(res, sc.collectExprReferences(ex, defaultType)...)
	}
	return res
}

func (sc *scopeCollector) collectJoinReferences("""))
good('r5-ps-binary-merge', (PSC, """	case *tree.AndExpr:
		res = append(res, sc.collectExprReferences(e.Left, defaultType)...)
		res = append(res, sc.collectExprReferences(e.Right, defaultType)...)
""", """	case *tree.AndExpr:
		left := sc.collectExprReferences(e.Left, defaultType)
		right := sc.collectExprReferences(e.Right, defaultType)
		res = append(left, right...)
"""))
good('r5-ps-func-star', (PSC, """			if _, ok := arg.(tree.UnqualifiedStar); ok {
				// do nothing for star inside a function as it doesn't reference anything
			} else {
				res = append(res, sc.collectExprReferences(arg, defaultType)...)
			}
""", """			// star inside a function doesn't reference anything
			if _, isStar := arg.(tree.UnqualifiedStar); isStar {
				continue
			}
			res = append(res, sc.collectExprReferences(arg, defaultType)...)
"""))
good('r5-ps-append-field', (PSC, """	for _, d := range stmt.DistinctOn {
		f, err := sc.createFieldFromExpr(d, dparser.FieldReference)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
""", """	for _, d := range stmt.DistinctOn {
		foundFields = sc.appendField(foundFields, d, dparser.FieldReference)
	}
"""), (PSC, """	if stmt.Where != nil {
		f, err := sc.createFieldFromExpr(stmt.Where.Expr, dparser.FieldCondition)
		if err == nil {
			foundFields = append(foundFields, f)
		} else {
			sc.errors = append(sc.errors, err)
		}
	}
	if stmt.GroupBy != nil {
		for _, g := range stmt.GroupBy {
			f, err := sc.createFieldFromExpr(g, dparser.FieldReference)
			if err == nil {
				foundFields = append(foundFields, f)
			} else {
				sc.errors = append(sc.errors, err)
			}
		}
	}
""", """	if stmt.Where != nil {
		foundFields = sc.appendField(foundFields, stmt.Where.Expr, dparser.FieldCondition)
	}
	for _, g := range stmt.GroupBy {
		foundFields = sc.appendField(foundFields, g, dparser.FieldReference)
	}
"""), (PSC, """func (sc *scopeCollector) collectJoinReferences(""", """// appendField appends columns of expr, or records the error.
func (sc *scopeCollector) appendField(fields []*dparser.Field, expr tree.Expr, t dparser.FieldType) []*dparser.Field {
	f, err := sc.createFieldFromExpr(expr, t)
	if err != nil {
		sc.errors = append(sc.errors, err)
		return fields
	}
	return append(fields, f)
}

func (sc *scopeCollector) collectJoinReferences("""))
good('r5-ps-using-helper', (PSC, """			// todo: not supporting the same column name?
			for _, col := range c.Cols {
				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: col.Normalize(), Type: dparser.FieldCondition}}})
			}
""", """			fields = append(fields, toUsingFields(c.Cols)...)
"""), (PSC, """func (sc *scopeCollector) collectJoinReferences(""", """func toUsingFields(names tree.NameList) []*dparser.Field {
	fields := make([]*dparser.Field, 0, len(names))
	for i := range names {
		col := &dparser.FieldColumn{Name: names[i].Normalize(), Type: dparser.FieldCondition}
		fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{col}})
	}
	return fields
}

func (sc *scopeCollector) collectJoinReferences("""))
good('r5-ps-schema-bool', (PSC, """	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {
		return true
	}

	return false
""", """	switch {
	case un.NumParts > schemaPos+1:
		return true
	case un.NumParts == schemaPos+1:
		return un.Parts[schemaPos] != sc.targetSchema
	}
	return false
"""), (PSC, """	sName := tt.SchemaName.Normalize()
	if sName == "" || sName == sc.targetSchema {
		return false
	}

	return true
""", """	sName := tt.SchemaName.Normalize()
	return sName != "" && sName != sc.targetSchema
"""))
good('r5-ps-schema-shared', (PSC, """	if (un.NumParts == schemaPos+1 && un.Parts[schemaPos] != sc.targetSchema) || un.NumParts > schemaPos+1 {
		return true
	}

	return false
""", """	return sc.hasOtherSchema(un.NumParts, un.Parts[schemaPos], schemaPos)
"""), (PSC, """	if (uon.NumParts == schemaPos+1 && uon.Parts[schemaPos] != sc.targetSchema) || uon.NumParts > schemaPos+1 {
		return true
	}

	return false
""", """	return sc.hasOtherSchema(uon.NumParts, uon.Parts[schemaPos], schemaPos)
"""), (PSC, """func (sc *scopeCollector) isSchemaSpecifiedTableName""", """func (sc *scopeCollector) hasOtherSchema(numParts int, schema string, schemaPos int) bool {
	if numParts > schemaPos+1 {
		return true
	}
	return numParts == schemaPos+1 && schema != sc.targetSchema
}

func (sc *scopeCollector) isSchemaSpecifiedTableName"""))
good('r5-ps-newscope', (PSC, """	name := dparser.RootScopeName
	if n, ok := sc.foundSelectInfos[s]; ok {
		name = n.name
	}
	scope := &dparser.StmtScope{Name: name}

	if parent != nil {
		parent.scope.SubScopes = append(parent.scope.SubScopes, scope)
	}

	return scope
""", """	scope := &dparser.StmtScope{Name: sc.scopeName(s)}
	if parent == nil {
		return scope
	}

	parent.scope.SubScopes = append(parent.scope.SubScopes, scope)
	return scope
"""), (PSC, """func (sc *scopeCollector) isSchemaSpecifiedTableName""", """func (sc *scopeCollector) scopeName(s *tree.Select) string {
	if info := sc.foundSelectInfos[s]; info != nil {
		return info.name
	}
	return dparser.RootScopeName
}

func (sc *scopeCollector) isSchemaSpecifiedTableName"""))
good('r5-pt-cte-set', (PTN, """	for _, ctes := range tc.cteTables {
		for _, cte := range ctes {
			if cte == name {
				return true
			}
		}
	}
	return false
""", """	return lo.SomeBy(tc.cteTables, func(ctes []string) bool {
		return lo.Contains(ctes, name)
	})
"""), (PTN, """	"github.com/mrasu/GravityR/lib"
""", """	"github.com/mrasu/GravityR/lib"
	"github.com/samber/lo"
"""))
good('r5-pt-enter-switch', (PTN, """	if s, ok := node.(*tree.Select); ok {
		tc.pushCteTables(s)
	}
	if t, ok := node.(*tree.AliasedTableExpr); ok {
		if n, ok := t.Expr.(*tree.TableName); ok {
			tc.addTableIfNotDerived(t.As.Alias, n)
		}
	}

	return false
}
""", """	switch n := node.(type) {
	case *tree.Select:
		tc.pushCteTables(n)
	case *tree.AliasedTableExpr:
		if tName, ok := n.Expr.(*tree.TableName); ok {
			tc.addTableIfNotDerived(n.As.Alias, tName)
		}
	}

	return false
}
"""))
good('r5-pt-qualified', (PTN, """	if (tName.SchemaName != "public" && tName.SchemaName != "") || tName.CatalogName != "" {
		tc.errors""", """	if isQualified(tName) {
		tc.errors"""), (PTN, """func (tc *tableCollector) addTable""", """func isQualified(tName *tree.TableName) bool {
	if tName.CatalogName != "" {
		return true
	}
	return tName.SchemaName != "" && tName.SchemaName != "public"
}

func (tc *tableCollector) addTable"""))
good('r5-pt-names-lo', (PTN, """	s := lib.NewSet[string]()
	for _, t := range tc.tables {
		s.Add(t.name.Normalize())
	}

	return s.Values()
""", """	return lo.Uniq(lo.Map(tc.tables, func(t *table, _ int) string { return t.name.Normalize() }))
"""), (PTN, """	"github.com/mrasu/GravityR/lib"
""", """	"github.com/mrasu/GravityR/lib"
	"github.com/samber/lo"
"""))
good('r5-pts-schemas-split', (PTS, """	for i, table := range tables {
		if schemas[i] == nil {
			return nil, lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", table))
		}
	}
""", """	if err := ensureAllFound(tables, schemas); err != nil {
		return nil, err
	}
"""), (PTS, """func CollectTableSchemas""", """func ensureAllFound(tables []string, schemas []*dparser.TableSchema) error {
	for i, schema := range schemas {
		if schema != nil {
			continue
		}
		return lib.NewUnsupportedError(fmt.Sprintf("unknown table found. perhaps using VIEW? not supporting: %s", tables[i]))
	}
	return nil
}

func CollectTableSchemas"""))
good('r5-pgc-html-split', (PGC, """	var vits []*viewmodel.VmIndexTarget
	for _, it := range idxTargets {
		vits = append(vits, it.ToViewModel())
	}

	var ver *viewmodel.VmExaminationResult
	if er != nil {
		ver = er.ToViewModel()
	}

	bo := html.NewSuggestPostgresDataBuildOption(
		pr.query,
		aTree.ToViewModel(),
		aTree.SummaryText,
		vits,
		[]*viewmodel.VmExaminationCommandOption{
			viewmodel.CreateOutputExaminationOption(!pr.runsExamination, outputPath),
			{IsShort: true, Name: "q", Value: pr.query},
		},
		ver,
	)

	err := html.CreateHtml(html.TypeMain, outputPath, bo)
	if err != nil {
		return err
	}

	return nil
}
""", """	vits := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) *viewmodel.VmIndexTarget { return it.ToViewModel() })

	bo := html.NewSuggestPostgresDataBuildOption(
		pr.query,
		aTree.ToViewModel(),
		aTree.SummaryText,
		vits,
		pr.commandOptions(outputPath),
		toVmResult(er),
	)

	return html.CreateHtml(html.TypeMain, outputPath, bo)
}

func (pr *postgresRunner) commandOptions(outputPath string) []*viewmodel.VmExaminationCommandOption {
	output := viewmodel.CreateOutputExaminationOption(!pr.runsExamination, outputPath)
	query := &viewmodel.VmExaminationCommandOption{IsShort: true, Name: "q", Value: pr.query}
	return []*viewmodel.VmExaminationCommandOption{output, query}
}

func toVmResult(er *dmodel.ExaminationResult) *viewmodel.VmExaminationResult {
	if er == nil {
		return nil
	}
	return er.ToViewModel()
}
"""))
good('r5-pgc-examine-guard', (PGC, """	targets := varTargets
	if len(targets) == 0 {
		targets = lo.Filter(possibleTargets, func(it *dmodel.IndexTarget, _ int) bool { return it.IsSafe() })
	}
""", """	targets := pr.selectTargets(varTargets, possibleTargets)
"""), (PGC, """func (pr *postgresRunner) createHTML""", """func (pr *postgresRunner) selectTargets(varTargets, possibleTargets []*dmodel.IndexTarget) []*dmodel.IndexTarget {
	if len(varTargets) > 0 {
		return varTargets
	}
	var safe []*dmodel.IndexTarget
	for _, it := range possibleTargets {
		if it.IsSafe() {
			safe = append(safe, it)
		}
	}
	return safe
}

func (pr *postgresRunner) createHTML"""), (PGC, '	"github.com/samber/lo"\n', ''))
good('r5-pgc-suggest-early', (PGC, """	if outputPath != "" {
		err := pr.createHTML(outputPath, its, er, aTree)
		if err != nil {
			return err
		}

		util.LogResultOutputPath(outputPath)
	}
	return nil
}
""", """	if outputPath == "" {
		return nil
	}

	if err := pr.createHTML(outputPath, its, er, aTree); err != nil {
		return err
	}
	util.LogResultOutputPath(outputPath)
	return nil
}
"""))
good('r5-pgc-with-db', (PGC, """	cfg, err := postgres.NewConfigFromEnv()
	if err != nil {
		return err
	}

	db, err := postgres.OpenPostgresDB(cfg)
	if err != nil {
		return err
	}
	defer db.Close()

	return pr.suggest(flag.DbFlag.Output, db, cfg.GetSearchPathOrPublic())
}
""", """	return withDB(func(db *postgres.DB, schema string) error {
		return pr.suggest(flag.DbFlag.Output, db, schema)
	})
}

func withDB(fn func(db *postgres.DB, schema string) error) error {
	cfg, err := postgres.NewConfigFromEnv()
	if err != nil {
		return err
	}

	db, err := postgres.OpenPostgresDB(cfg)
	if err != nil {
		return err
	}
	defer db.Close()

	return fn(db, cfg.GetSearchPathOrPublic())
}
"""))

# ---- P16: secrets
MDB = 'infra/mysql/db.go'
PDB = 'infra/postgres/db.go'
HTR = 'lib/http_transport.go'
OPENM = '''	db, err := sqlx.Open("mysql", dsn)
	if err != nil {
		return nil, errors.Wrap(err, "failed to connect")
'''
bad('p16-dsn-in-error', 'P16', (MDB, OPENM, OPENM.replace('"failed to connect"', 'fmt.Sprintf("failed to connect: %s", dsn)')))
bad('p16-dsn-in-error-pg', 'P16', (PDB, '''	db, err := sqlx.Open("postgres", cfg.GetKVConnectionString())
	if err != nil {
		return nil, errors.Wrap(err, "failed to connect")
''', '''	conn := cfg.GetKVConnectionString()
	db, err := sqlx.Open("postgres", conn)
	if err != nil {
		return nil, errors.Wrapf(err, "failed to connect with %q", conn)
'''))
bad('p16-log-dsn', 'P16', (MDB, '''	dsn := cfg.ToDSN()
''', '''	dsn := cfg.ToDSN()
	log.Debug().Str("dsn", dsn).Msg("connecting")
'''), (MDB, '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"github.com/rs/zerolog/log"
'''))
bad('p16-log-config', 'P16', (PDB, '''	db, err := sqlx.Open(''', '''	log.Printf("connecting: %+v", *cfg)
	db, err := sqlx.Open('''), (PDB, '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"github.com/rs/zerolog/log"
'''))
bad('p16-log-mysql-config', 'P16', (MDB, '''	dsn := cfg.ToDSN()
''', '''	dsn := cfg.ToDSN()
	log.Debug().Interface("config", cfg.config).Msg("connecting")
'''), (MDB, '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"github.com/rs/zerolog/log"
'''))
bad('p16-log-headers', 'P16', (HTR, '''	startTime := time.Now()
''', '''	log.Printf("[http] --> headers=%v", req.Header)
	startTime := time.Now()
'''))
bad('p16-log-header-loop', 'P16', (HTR, '''	startTime := time.Now()
''', '''	for name, values := range req.Header {
		log.Debug().Strs(name, values).Msg("[http] header")
	}
	startTime := time.Now()
'''))
bad('p16-dump-request', 'P16', (HTR, '''	if err != nil {
		log.Printf("[http] <-- ERROR method=%s''', '''	if err != nil {
		if dump, derr := httputil.DumpRequestOut(req, false); derr == nil {
			log.Printf("%s", dump)
		}
		log.Printf("[http] <-- ERROR method=%s'''), (HTR, '''	"net/http"
''', '''	"net/http"
	"net/http/httputil"
'''))
bad('p16-error-headers', 'P16', (HCL, '''		return nil, errors.Wrap(err, "failed to execute http request to hasura")
''', '''		return nil, errors.Wrapf(err, "failed to execute http request to hasura(headers=%v)", c.headers)
'''))
bad('p16-error-request', 'P16', (HCL, '''		return nil, errors.Wrap(err, "failed to execute http request to hasura")
''', '''		return nil, errors.Wrapf(err, "failed to execute http request to hasura: %v", req)
'''))
bad('p16-secret-in-url', 'P16', (HCL, '''	req, err := http.NewRequest("POST", c.resolveURL(pathname), bytes.NewReader(b))
''', '''	u := c.resolveURL(pathname) + "?x-hasura-admin-secret=" + url.QueryEscape(c.headers["x-hasura-admin-secret"])
	req, err := http.NewRequest("POST", u, bytes.NewReader(b))
'''))
bad('p16-secret-in-body', 'P16', (HCL, '''	body := map[string]interface{}{
		"type": "run_sql",
		"args": args,
	}
''', '''	body := map[string]interface{}{
		"type":    "run_sql",
		"args":    args,
		"headers": c.headers,
	}
'''))
bad('p16-secret-in-error', 'P16', (HCFG, '''	s, err := lib.GetEnv("HASURA_ADMIN_SECRET")
	if err != nil {
		return nil, err
	}
''', '''	s, err := lib.GetEnv("HASURA_ADMIN_SECRET")
	if err != nil {
		return nil, err
	}
	if strings.TrimSpace(s) != s {
		return nil, errors.Errorf("invalid HASURA_ADMIN_SECRET: %q", s)
	}
'''), (HCFG, '''	"net/url"
''', '''	"net/url"
	"strings"
'''))
bad('p16-password-flag', 'P16', (MYC, '''	flg := MySqlCmd.Flags()
''', '''	flg := MySqlCmd.Flags()
	flg.String("password", os.Getenv("DB_PASSWORD"), "Password of the database")
'''), (MYC, '''import (
''', '''import (
	"os"
'''))
bad('p16-builder', 'P16', (PDB, '''	db, err := sqlx.Open("postgres", cfg.GetKVConnectionString())
	if err != nil {
		return nil, errors.Wrap(err, "failed to connect")
''', '''	db, err := sqlx.Open("postgres", cfg.GetKVConnectionString())
	if err != nil {
		var sb strings.Builder
		sb.WriteString("failed to connect as ")
		sb.WriteString(cfg.user + ":" + cfg.password)
		return nil, errors.Wrap(err, sb.String())
'''), (PDB, '''	"github.com/pkg/errors"
''', '''	"github.com/pkg/errors"
	"strings"
'''))
good('p16-host-in-error', (PDB, '''		return nil, errors.Wrap(err, "failed to connect")
''', '''		return nil, errors.Wrap(err, "failed to connect"+" to "+"the server")
'''))
good('p16-helpers', (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	c.authorize(req.Header)
'''), (HCL, '''func (c *Client) resolveURL(''', '''func (c *Client) authorize(h http.Header) {
	for k, v := range c.headers {
		h.Add(k, v)
	}
}

func (c *Client) resolveURL('''))
good('p16-set-header', (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	for name := range c.headers {
		req.Header.Set(name, c.headers[name])
	}
'''))
good('p16-builder', (PCF, '''		texts = append(texts, "password="+quoteKVValue(cfg.password))
''', '''		var sb strings.Builder
		sb.WriteString("password=")
		sb.WriteString(quoteKVValue(cfg.password))
		texts = append(texts, sb.String())
'''))
good('p16-sorted-headers', (HCL, '''	for k, v := range c.headers {
		req.Header.Add(k, v)
	}
''', '''	names := make([]string, 0, len(c.headers))
	for name := range c.headers {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		req.Header.Add(name, c.headers[name])
	}
'''), (HCL, '''	"path"
''', '''	"path"
	"sort"
'''))

# ---- P22: resources
BODY = '''	defer res.Body.Close()
	if res.StatusCode != 200 {
		text, err := io.ReadAll(res.Body)
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return io.ReadAll(res.Body)
'''
DEFB = '''	defer res.Body.Close()
'''
bad('p22-late-defer', 'P22', (HCL, BODY, BODY.replace(DEFB, '').replace('	return io.ReadAll(res.Body)\n', DEFB + '	return io.ReadAll(res.Body)\n')))
bad('p22-close-then-read', 'P22', (HCL, BODY, BODY.replace('	defer res', '	_ = res')))
bad('p22-close-on-success', 'P22', (HCL, BODY, BODY.replace(DEFB, '').replace('	return io.ReadAll(res.Body)\n', '''	b, err = io.ReadAll(res.Body)
	if err != nil {
		return nil, err
	}
	return b, res.Body.Close()
''')))
DO = '''	res, err := http.DefaultClient.Do(req)
	if err != nil {
		return nil, errors.Wrap(err, "failed to execute http request to hasura")
	}
'''
bad('p22-retry', 'P22', (HCL, DO, '''	var res *http.Response
	for i := 0; i < 3; i++ {
		res, err = http.DefaultClient.Do(req)
		if err != nil {
			return nil, errors.Wrap(err, "failed to execute http request to hasura")
		}
		if res.StatusCode < 500 || req.GetBody == nil {
			break
		}
		req.Body, err = req.GetBody()
		if err != nil {
			return nil, errors.Wrap(err, "failed to repeat the request")
		}
	}
'''))
MYDEF = '''	defer db.Close()

	return mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
'''
bad('p22-db-on-success', 'P22', (MYC, MYDEF, '''
	err = mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
	if err != nil {
		return err
	}
	return db.Close()
'''))
bad('p22-db-never', 'P22', (PGC, '''	defer db.Close()
''', ''))
bad('p22-ping', 'P22', (PDB, '''	return NewDB(db), nil
''', '''	if err := db.Ping(); err != nil {
		return nil, errors.Wrap(err, "failed to connect")
	}

	return NewDB(db), nil
'''))
good('p22-ping-close', (PDB, '''	return NewDB(db), nil
''', '''	if db.Stats().MaxOpenConnections < 0 {
		_ = db.Close()
		return nil, errors.New("failed to connect")
	}

	return NewDB(db), nil
'''))
bad('p22-conn-defer', 'P22', (JCL, '''	return NewClient(conn), nil
''', '''	defer conn.Close()

	return NewClient(conn), nil
'''))
bad('p22-conn-leak', 'P22', (JCMD, '''	defer cli.Close()

	return jr.dig(flag.AppFlag.Output, cli)
''', '''	err = jr.dig(flag.AppFlag.Output, cli)
	if err != nil {
		return err
	}
	return cli.Close()
'''))
bad('p22-file', 'P22', (HB, '''		_ = f.Close()
		return errors.Wrap(err, "failed to write''', '''		return errors.Wrap(err, "failed to write'''))
bad('p22-cancel', 'P22', (JCL, '''	defer cancel()
	conn, err := grpc.DialContext(ctx, address, opts...)
	if err != nil {
''', '''	conn, err := grpc.DialContext(ctx, address, opts...)
	if err != nil {
		cancel()
'''))
bad('p22-wrapper-noop', 'P22', (MDB, '''	return db.db.Close()
''', '''	if db.db.Stats().InUse > 0 {
		return errors.New("still in use")
	}
	return db.db.Close()
'''))
good('p22-explicit', (HCL, BODY, '''	text, err := io.ReadAll(res.Body)
	_ = res.Body.Close()
	if res.StatusCode != 200 {
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return text, err
'''))
good('p22-close-helper', (HCL, DEFB, '''	defer closeBody(res)
'''), (HCL, '''func (c *Client) resolveURL(''', '''func closeBody(res *http.Response) {
	if res != nil && res.Body != nil {
		_ = res.Body.Close()
	}
}

func (c *Client) resolveURL('''))
good('p22-closure', (MYC, '''	defer db.Close()
''', '''	defer func() {
		_ = db.Close()
	}()
'''))
good('p22-nil-check', (MDB, '''	return db.db.Close()
''', '''	if db.db == nil {
		return nil
	}
	return db.db.Close()
'''))
good('p22-explicit-db', (MYC, MYDEF, '''
	err = mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
	_ = db.Close()
	return err
'''))
good('p22-with-db', (MYC, '''	db, err := mysql.OpenMySQLDB(cfg)
	if err != nil {
		return err
	}
''' + MYDEF + '''}
''', '''	return withDB(cfg, func(db *mysql.DB) error {
		return mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
	})
}

func withDB(cfg *mysql.Config, f func(*mysql.DB) error) error {
	db, err := mysql.OpenMySQLDB(cfg)
	if err != nil {
		return err
	}
	defer db.Close()
	return f(db)
}
'''))
good('p22-named-err', (JCL, '''func Open(address string, isSecure bool) (*Client, error) {
''', '''func Open(address string, isSecure bool) (cli *Client, err error) {
'''), (JCL, '''	conn, err := grpc.DialContext(ctx, address, opts...)
	if err != nil {
		return nil, errors.Wrapf(err, "cannot connect to %s", address)
	}

	return NewClient(conn), nil
''', '''	var conn *grpc.ClientConn
	defer func() {
		if err != nil && conn != nil {
			_ = conn.Close()
		}
	}()
	conn, err = grpc.DialContext(ctx, address, opts...)
	if err != nil {
		return nil, errors.Wrapf(err, "cannot connect to %s", address)
	}
	return NewClient(conn), nil
'''))
good('p22-open-helper', (MYC, '''	cfg, err := mysql.NewConfigFromEnv()
	if err != nil {
		return err
	}

	db, err := mysql.OpenMySQLDB(cfg)
	if err != nil {
		return err
	}
	defer db.Close()

	return mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
}
''', '''	db, name, err := openDB()
	if err != nil {
		return err
	}
	defer db.Close()

	return mr.suggest(flag.DbFlag.Output, db, name)
}

func openDB() (*mysql.DB, string, error) {
	cfg, err := mysql.NewConfigFromEnv()
	if err != nil {
		return nil, "", err
	}
	db, err := mysql.OpenMySQLDB(cfg)
	return db, cfg.GetDBName(), err
}
'''))
good('p22-file-deferred-twice', (HB, '''	err = tpl.Execute(f, m)
	if err != nil {
		_ = f.Close()
		return''', '''	defer f.Close()
	err = tpl.Execute(f, m)
	if err != nil {
		return'''))
good('p22-client-handed', (JCMD, '''	cli, err := iJaeger.Open(jr.grpcAddress, false)
	if err != nil {
		return err
	}
	defer cli.Close()

	return jr.dig(flag.AppFlag.Output, cli)
''', '''	cli, err := iJaeger.Open(jr.grpcAddress, false)
	if err == nil {
		defer cli.Close()
		err = jr.dig(flag.AppFlag.Output, cli)
	}
	return err
'''))
good('p22-send', (HCL, DO + '''
''' + BODY, '''	res, err := send(req)
	if err != nil {
		return nil, err
	}
	return readAnswer(res)
'''), (HCL, '''func (c *Client) resolveURL(''', '''func send(req *http.Request) (*http.Response, error) {
''' + DO + '''	return res, nil
}

func readAnswer(res *http.Response) ([]byte, error) {
''' + BODY + '''}

func (c *Client) resolveURL('''))
good('p22-close-err', (HCL, '''func (c *Client) post(pathname string, body interface{}) ([]byte, error) {
''', '''func (c *Client) post(pathname string, body interface{}) (answer []byte, err error) {
'''), (HCL, DEFB, '''	defer func() {
		if cerr := res.Body.Close(); cerr != nil && err == nil {
			answer, err = nil, errors.Wrap(cerr, "failed to close the response")
		}
	}()
'''))
good('p22-body-var', (HCL, BODY, '''	rc := res.Body
	defer rc.Close()
	text, err := io.ReadAll(rc)
	if res.StatusCode != 200 {
		if err != nil {
			return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
		}

		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}

	return text, err
'''))
good('p22-switch', (HCL, BODY, '''	defer res.Body.Close()
	text, err := io.ReadAll(res.Body)
	switch {
	case res.StatusCode == 200:
		return text, err
	case err != nil:
		return nil, errors.Wrap(err, fmt.Sprintf("Request to Hasura failed (Status=%d)", res.StatusCode))
	default:
		return nil, errors.Errorf("Request to Hasura failed (Status=%d): %s", res.StatusCode, string(text))
	}
'''))
good('p22-closer-field', (JCL, '''type Client struct {
	conn *grpc.ClientConn
}
''', '''type Client struct {
	conn  *grpc.ClientConn
	close func() error
}
'''), (JCL, '''	return &Client{conn: conn}
''', '''	return &Client{conn: conn, close: conn.Close}
'''), (JCL, '''	err := c.conn.Close()
''', '''	err := c.close()
'''))
good('p22-defer-ignored-fn', (PGC, '''	defer db.Close()
''', '''	closeDB := func() {
		if err := db.Close(); err != nil {
			log.Warn().Err(err).Msg("failed to close the database")
		}
	}
	defer closeDB()
'''))

# P26: suggested indexes
bad('p26-external-first', 'P26', (BTF, '''	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
		return cols, nil
	}
	for _, external := range t.externalCols {
		if cols, ok := t.getColumnInfosFromTableOutputCols(external, colName); ok {
			return cols, nil
		}
	}
''', '''	for _, external := range t.externalCols {
		if cols, ok := t.getColumnInfosFromTableOutputCols(external, colName); ok {
			return cols, nil
		}
	}
	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
		return cols, nil
	}
'''))
bad('p26-external-first-qualified', 'P26', (BTF, '''	if name, ok := t.asToName[asName]; ok {
		if cols, ok := t.internalCols[name]; ok {
			return cols, nil
		}
	}
	for _, external := range t.externalCols {
		if cols, ok := external[asName]; ok {
			return cols, nil
		}
	}
''', '''	for _, external := range t.externalCols {
		if cols, ok := external[asName]; ok {
			return cols, nil
		}
	}
	if name, ok := t.asToName[asName]; ok {
		if cols, ok := t.internalCols[name]; ok {
			return cols, nil
		}
	}
'''))
bad('p26-no-upgrade', 'P26', (BTF, 'if c.Type == FieldReference && col.Type == FieldCondition {', 'if c.Type == FieldReference && col.Type != FieldCondition {'))
bad('p26-last-wins', 'P26', (BTF, 'if c.Type == FieldReference && col.Type == FieldCondition {', 'if c.Type != col.Type {'))
bad('p26-appended-twice', 'P26', (BTF, '''				si.referencingFields[tableName][i] = col
			}
			return
''', '''				si.referencingFields[tableName][i] = col
				return
			}
			break
'''))
bad('p26-type-reference', 'P26', (BTF, 'Type:  c.Type,', 'Type:  FieldReference,'))
bad('p26-other-name', 'P26', (BTF, 'Name:  ci.name,', 'Name:  c.Name,'))
bad('p26-alias-as-table', 'P26', (BTF, 'Table: ci.tableName,', 'Table: c.Table,'))
bad('p26-any-pk', 'P26', (ITB, '''			if !pks.Contains(f.Name) {
				isAllPk = false
				break
			}
''', '''			isAllPk = pks.Contains(f.Name)
			if isAllPk {
				break
			}
'''))
bad('p26-first-pk', 'P26', (ITB, '''			if !pks.Contains(f.Name) {
				isAllPk = false
				break
			}
''', '''			if !pks.Contains(f.Name) {
				isAllPk = false
			}
			break
'''))
bad('p26-short-only', 'P26', (ITB, '''		efficientIndexFields = append(efficientIndexFields, fields)
''', '''		if len(fields) > 4 {
			continue
		}
		efficientIndexFields = append(efficientIndexFields, fields)
'''))
bad('p26-no-cover', 'P26', (ITB, '''			if len(fields) != fieldColumns.Count() {
				goto next
			}
''', ''))
bad('p26-conditions-only', 'P26', (ITB, 'if !(fc.Type == FieldReference || fc.Type == FieldCondition) {', 'if fc.Type != FieldCondition {'))
bad('p26-no-delete', 'P26', (ITB, '''		fColumns.Delete(fc)
		res2 := itb.compositeFieldColumns(fColumns)
		fColumns.Add(fc)
''', '''		fColumns.Delete(fc)
		res2 := itb.compositeFieldColumns(fColumns)
'''))
bad('p26-limit-columns', 'P26', (ITT, '''	for _, f := range itt.IndexFields {
''', '''	for i, f := range itt.IndexFields {
		if i >= 16 {
			break
		}
'''))
bad('p26-siblings', 'P26', (BTF, '		if t.IsLateral {\n', '		if len(info.originalExternalCols) == 0 || t.IsLateral {\n'))
bad('p26-values-blind', 'P26', (BTF, '''	visibleCols := info.listVisibleColumns()
	for _, s := range scope.FieldScopes {''', '''	visibleCols := []tableOutputCols{info.getVisibleColumns()}
	for _, s := range scope.FieldScopes {'''))
bad('p26-alias-only', 'P26', (BTF, 'asToName[t.AsOrName()] = t.Name', 'asToName[t.Name] = t.Name'))
bad('p26-skip-subquery-columns', 'P26', (BTF, '''		// columns of a subquery used as a value are not visible from this scope
		info.addReferencingFields(newFieldColumns)
''', '''		if len(s.Tables) > 1 {
			info.addReferencingFields(newFieldColumns)
		}
'''))
bad('p26-first-column', 'P26', (BTF, '''				info.addReferencingField(ci.tableName, fc)
			}
''', '''				info.addReferencingField(ci.tableName, fc)
				break
			}
'''))
bad('p26-skip-aliased', 'P26', (BTF, '''			for _, ci := range colInfos {
				fc :=''', '''			for _, ci := range colInfos {
				if f.AsName == ci.name {
					continue
				}
				fc :='''))
good('p26-nearest-helper', (BTF, '''			if c.Type == FieldReference && col.Type == FieldCondition {
				si.referencingFields[tableName][i] = col
			}
			return
''', '''			if c.Type != FieldReference {
				return
			}
			if col.Type != FieldCondition {
				return
			}
			cols[i] = col
			return
'''))
good('p26-pk-every', (ITB, '''	var res []index
	for _, fs := range indexFieldList {
		isAllPk := true
		for _, f := range fs {
			if !pks.Contains(f.Name) {
				isAllPk = false
				break
			}
		}

		if !isAllPk {
			res = append(res, fs)
		}
	}

	return res
''', '''	return lo.Filter(indexFieldList, func(fs index, _ int) bool {
		return lo.SomeBy(fs, func(f *IndexField) bool { return !pks.Contains(f.Name) })
	})
'''))
good('p26-labelled', (ITB, '''	var efficientIndexFields []index
	for _, fields := range compositions {
		for i''', '''	var efficientIndexFields []index
outer:
	for _, fields := range compositions {
		for i'''), (ITB, '''				goto next
			}

			for j''', '''				continue outer
			}

			for j'''), (ITB, '''				if fields[j].Type != FieldReference {
					goto next
				}
''', '''				if fields[j].Type != FieldReference {
					continue outer
				}
'''), (ITB, '''				if fields[j-1].Name > fields[j].Name {
					goto next
				}
''', '''				if fields[j-1].Name > fields[j].Name {
					continue outer
				}
'''), (ITB, '	next:\n', ''))
good('p26-predicate', (ITB, '''			if len(fields) != fieldColumns.Count() {
				goto next
			}

			for j := i + 1; j < len(fields); j++ {
				if fields[j].Type != FieldReference {
					goto next
				}

				// pick ordered fields only to avoid duplicating index
				if fields[j-1].Name > fields[j].Name {
					goto next
				}
			}
		}
		efficientIndexFields = append(efficientIndexFields, fields)
	next:
	}

	return efficientIndexFields
}
''', '''			if len(fields) != fieldColumns.Count() || !orderedReferences(fields[i:]) {
				goto next
			}
		}
		efficientIndexFields = append(efficientIndexFields, fields)
	next:
	}

	return efficientIndexFields
}

func orderedReferences(fields []*IndexField) bool {
	for j := 1; j < len(fields); j++ {
		if fields[j].Type != FieldReference || fields[j-1].Name > fields[j].Name {
			return false
		}
	}
	return true
}
'''))
good('p26-efficient-func', (ITB, '''	for _, fields := range compositions {
		for i := 0; i < len(fields); i++ {
			if fields[i].Type != FieldReference {
				continue
			}

			if len(fields) != fieldColumns.Count() {
				goto next
			}

			for j := i + 1; j < len(fields); j++ {
				if fields[j].Type != FieldReference {
					goto next
				}

				// pick ordered fields only to avoid duplicating index
				if fields[j-1].Name > fields[j].Name {
					goto next
				}
			}
		}
		efficientIndexFields = append(efficientIndexFields, fields)
	next:
	}

	return efficientIndexFields
}
''', '''	for _, fields := range compositions {
		if isEfficient(fields, fieldColumns.Count()) {
			efficientIndexFields = append(efficientIndexFields, fields)
		}
	}

	return efficientIndexFields
}

func isEfficient(fields index, total int) bool {
	for i := 0; i < len(fields); i++ {
		if fields[i].Type != FieldReference {
			continue
		}
		if len(fields) != total {
			return false
		}
		for j := i + 1; j < len(fields); j++ {
			if fields[j].Type != FieldReference {
				return false
			}
			if fields[j-1].Name > fields[j].Name {
				return false
			}
		}
	}
	return true
}
'''))
good('p26-loop-columns', (BTF, '''	for _, name := range sortedKeys(tableOutputs) {
		for _, fc := range tableOutputs[name] {
			if colName == fc.name {
				return fc.referencingColumns, true
			}
		}
	}

	return nil, false
''', '''	for _, name := range sortedKeys(tableOutputs) {
		fc, ok := lo.Find(tableOutputs[name], func(oc *outputCol) bool { return oc.name == colName })
		if ok {
			return fc.referencingColumns, true
		}
	}

	return nil, false
'''))
good('p26-typeswitch', (ITB, '''		if !(fc.Type == FieldReference || fc.Type == FieldCondition) {
			continue
		}
''', '''		switch fc.Type {
		case FieldReference, FieldCondition:
		default:
			continue
		}
'''))
good('p26-record-func', (BTF, '''	for i, c := range cols {
		if c.Name == col.Name {
			if c.Type == FieldReference && col.Type == FieldCondition {
				si.referencingFields[tableName][i] = col
			}
			return
		}
	}
	si.referencingFields[tableName] = append(si.referencingFields[tableName], col)
''', '''	_, i, found := lo.FindIndexOf(cols, func(c *FieldColumn) bool { return c.Name == col.Name })
	if !found {
		si.referencingFields[tableName] = append(cols, col)
		return
	}
	if cols[i].Type == FieldReference && col.Type == FieldCondition {
		cols[i] = col
	}
'''))
good('p26-infos-helper', (BTF, '''			for _, ci := range colInfos {
				fc := &FieldColumn{
					Table: ci.tableName,
					Name:  ci.name,
					Type:  c.Type,
				}
				info.addReferencingField(ci.tableName, fc)
			}
''', '''			info.record(colInfos, c.Type)
'''), (BTF, '''func (si *scopeInfo) addReferencingFields(''', '''func (si *scopeInfo) record(infos []*columnInfo, ty FieldType) {
	for _, ci := range infos {
		si.addReferencingField(ci.tableName, &FieldColumn{Table: ci.tableName, Name: ci.name, Type: ty})
	}
}

func (si *scopeInfo) addReferencingFields('''))
good('p26-build-in-one', (ITB, '''	SortIndexTargetTable(tables)
	idxTargets := lo.Map(tables, func(it *IndexTargetTable, _ int) *dmodel.IndexTarget { return it.ToIndexTarget() })
	return idxTargets, nil
''', '''	SortIndexTargetTable(tables)
	idxTargets := make([]*dmodel.IndexTarget, len(tables))
	for i, it := range tables {
		idxTargets[i] = it.ToIndexTarget()
	}
	return idxTargets, nil
'''), (ITB, '	"github.com/samber/lo"\n', ''))

# ---- P27: what is explained, analysed and measured is the given query
MPARSE = 'database/mysql/mservice/parse.go'
PPARSE = 'database/postgres/pservice/parse.go'
PEX = 'database/postgres/pservice/explainer.go'
MIS = 'database/mysql/mservice/index_suggester.go'
PIS = 'database/postgres/pservice/index_suggester.go'
HIS = 'database/hasura/hservice/index_suggester.go'
ERR1 = '"github.com/pkg/errors"\n'
bad('p27-my-lower', 'P27', (MDB, 'FORMAT=TREE "+query)', 'FORMAT=TREE "+strings.ToLower(query))'), (MDB, ERR1, ERR1 + '\t"strings"\n'))
bad('p27-my-explain-limit', 'P27', (MEX, 'e.db.ExplainWithAnalyze(query)', 'e.db.ExplainWithAnalyze(strings.Join(strings.Fields(query), " "))'))
bad('p27-my-cut-comment', 'P27', (MDB, '''	var res []string
	err := db.db.Select(&res, "EXPLAIN''', '''	var res []string
	if i := strings.Index(query, "--"); i >= 0 {
		query = query[:i]
	}
	err := db.db.Select(&res, "EXPLAIN'''), (MDB, ERR1, ERR1 + '\t"strings"\n'))
bad('p27-pg-lower', 'P27', (PEX, 'e.db.ExplainWithAnalyze(query)', 'e.db.ExplainWithAnalyze(strings.ToLower(query))'), (PEX, 'infra/postgres"\n', 'infra/postgres"\n\t"strings"\n'))
bad('p27-pg-cut', 'P27', (PDB, 'BUFFERS) "+query)', 'BUFFERS) "+strings.SplitN(query, ";", 2)[0])'), (PDB, ERR1, ERR1 + '\t"strings"\n'))
bad('p27-parse-lower', 'P27', (PPARSE, 'parser.Parse(query)', 'parser.Parse(strings.ToLower(query))'), (PPARSE, ERR1, ERR1 + '\t"strings"\n'))
bad('p27-my-parse-lower', 'P27', (MPARSE, 'p.Parse(query, "", "")', 'p.Parse(strings.ToLower(query), "", "")'), (MPARSE, '"github.com/pingcap/tidb/parser/ast"\n', '"github.com/pingcap/tidb/parser/ast"\n\t"strings"\n'))
bad('p27-parse-replace', 'P27', (PPARSE, 'parser.Parse(query)', "parser.Parse(strings.ReplaceAll(query, `\"`, \"\"))"), (PPARSE, ERR1, ERR1 + '\t"strings"\n'))
bad('p27-parse-multi', 'P27', (PPARSE, '''	if len(stmts) > 1 {
		return nil, errors.New("not supporting query having multiple statements")
	}
''', ''))
bad('p27-parse-multi2', 'P27', (PPARSE, 'len(stmts) > 1', 'len(stmts) > 2'))
bad('p27-my-parse-multi', 'P27', (MPARSE, 'len(stmtNodes) > 1', 'len(stmtNodes) > 2'))
bad('p27-my-parse-last', 'P27', (MPARSE, '''	if len(stmtNodes) > 1 {
		return nil, lib.NewUnsupportedError("not supporting query having multiple statements")
	}

	return stmtNodes[0]''', '''	return stmtNodes[len(stmtNodes)-1]'''))
bad('p27-hs-multi', 'P27', (HSC, 'len(res) != 1', 'len(res) == 0'))
bad('p27-hs-multi3', 'P27', (HSC, 'len(res) != 1', 'len(res) == 0 || len(res) > 2'))
bad('p27-hs-novars', 'P27', (HSC, '			Variables: pr.parsedVariables,\n', ''))
bad('p27-hs-vars-late', 'P27', (HSC, '''	pr.parsedVariables = v
	return nil''', '''	if pr.runsExamination {
		pr.parsedVariables = v
	}
	return nil'''))
bad('p27-hs-vars-filter', 'P27', (HSC, '''	return variables, nil
''', '''	for k, v := range variables {
		if v == nil {
			delete(variables, k)
		}
	}
	return variables, nil
'''))
bad('p27-hs-vars-tag', 'P27', ('infra/hasura/query.go', '`json:"variables"`', '`json:"variable"`'))
bad('p27-hs-query-trim', 'P27', (HSC, '			Query:     pr.query,\n', '			Query:     strings.Join(strings.Fields(pr.query), " "),\n'), (HSC, '"github.com/spf13/cobra"\n', '"github.com/spf13/cobra"\n\t"strings"\n'))
bad('p27-hs-exam-vars', 'P27', (HSC, 'hservice.NewIndexExaminer(cli, pr.query, pr.parsedVariables)', 'hservice.NewIndexExaminer(cli, pr.query, map[string]interface{}{})'))
bad('p27-hs-exam-nilvars', 'P27', (HSX, '''ie.cli.QueryWithoutResult(ie.query, ie.variables)''', '''ie.cli.QueryWithoutResult(ie.query, nil)'''))
bad('p27-my-suggest-trunc', 'P27', (MIS, 'Parse(p, query)', 'Parse(p, strings.ToLower(query))'), (MIS, '	tParser "github.com/pingcap/tidb/parser"\n', '	tParser "github.com/pingcap/tidb/parser"\n	"strings"\n'))
bad('p27-noanalyze', 'P27', (PDB, '"EXPLAIN (ANALYZE, BUFFERS) "', '"EXPLAIN (ANALYZE, BUFFERS, TIMING OFF) "'))
bad('p27-hs-sql-other', 'P27', (HSC, 'Suggest(r.SQL)', 'Suggest(strings.ToLower(r.SQL))'), (HSC, '"github.com/spf13/cobra"\n', '"github.com/spf13/cobra"\n\t"strings"\n'))
bad('p27-my-run-trim', 'P27', (MYC, 'ExplainWithAnalyze(mr.query)', 'ExplainWithAnalyze(strings.TrimLeft(mr.query, "( "))'), (MYC, '"github.com/spf13/cobra"\n', '"github.com/spf13/cobra"\n\t"strings"\n'))
bad('p27-ensure-cut', 'P27', (MYC, 'EnsureSupported(mr.query)', 'EnsureSupported(strings.SplitN(mr.query, ";", 2)[0])'), (MYC, '"github.com/spf13/cobra"\n', '"github.com/spf13/cobra"\n\t"strings"\n'))
bad('p27-explain-cache', 'P27', (MDB, '''func (db *DB) ExplainWithAnalyze(query string) (string, error) {
	var res []string
''', '''func (db *DB) ExplainWithAnalyze(query string) (string, error) {
	var res []string
	if len(query) > 1<<16 {
		query = query[:1<<16]
	}
'''))
bad('p27-hs-user', 'P27', (HSC, '''			Variables: pr.parsedVariables,
		},
''', '''			Variables: pr.parsedVariables,
		},
		User: map[string]string{"x-hasura-role": "user"},
'''))

good('p27-hs-only-helper', (HSC, """	if len(res) != 1 {
		return errors.Errorf("not supporting multiple gql executing multiple queries. %d query will be run", len(res))
	}

	r := res[0]
""", """	r, err := pr.only(res)
	if err != nil {
		return err
	}
"""), (HSC, """func (pr *postgresRunner) parseJSONToVariables""", """func (pr *postgresRunner) only(res []*hasura.ExplainResponse) (*hasura.ExplainResponse, error) {
	switch len(res) {
	case 1:
		return res[0], nil
	default:
		return nil, errors.Errorf("not supporting multiple gql executing multiple queries. %d query will be run", len(res))
	}
}

func (pr *postgresRunner) parseJSONToVariables"""))
good('p27-hs-vars-decoder', (HSC, """	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {""", """	if err := json.NewDecoder(strings.NewReader(jsonStr)).Decode(&variables); err != nil {"""), (HSC, '"github.com/spf13/cobra"\n', '"github.com/spf13/cobra"\n\t"strings"\n'))
good('p27-hs-vars-direct', (HSC, """	v, err := pr.parseJSONToVariables(pr.jsonVariables)
	if err != nil {
		return err
	}

	pr.parsedVariables = v
	return nil""", """	var err error
	pr.parsedVariables, err = pr.parseJSONToVariables(pr.jsonVariables)
	return err"""))
good('p27-parse-switch', (PPARSE, """	if len(stmts) == 0 {
		return nil, errors.New("query has no statement")
	}
	if len(stmts) > 1 {
		return nil, errors.New("not supporting query having multiple statements")
	}
	return &stmts[0], nil""", """	switch n := len(stmts); {
	case n < 1:
		return nil, errors.New("query has no statement")
	case n >= 2:
		return nil, errors.New("not supporting query having multiple statements")
	}
	stmt := stmts[0]
	return &stmt, nil"""))
good('p27-hs-user-empty', (HSC, """			Variables: pr.parsedVariables,
		},
""", """			Variables: pr.parsedVariables,
		},
		User: nil,
"""))
good('p27-explain-sprintf', (PDB, '"EXPLAIN (ANALYZE, BUFFERS) "+query', 'fmt.Sprintf("EXPLAIN (ANALYZE, BUFFERS) %s", query)'))
good('p27-suggester-once', (MIS, """	p := tParser.New()
	rootNode, err := Parse(p, query)
""", """	rootNode, err := is.parse(query)
"""), (MIS, "func (is *IndexSuggester) removeExisting", """func (is *IndexSuggester) parse(query string) (ast.StmtNode, error) {
	return Parse(tParser.New(), query)
}

func (is *IndexSuggester) removeExisting"""), (MIS, '	tParser "github.com/pingcap/tidb/parser"\n', '	tParser "github.com/pingcap/tidb/parser"\n	"github.com/pingcap/tidb/parser/ast"\n'))

# ---- round 7: written from the statements alone
NL = '\n'
JOIN = 'lib/join.go'; SORT = 'lib/sort.go'; ICOL = 'database/dmodel/index_column.go'; ENV = 'lib/env.go'; STK = 'lib/stack.go'
bad('r7-join-skip-empty', 'P02', (JOIN, '		res = append(res, f(val))', '''		if s := f(val); s != "" && (len(res) == 0 || res[len(res)-1] != s) {
			res = append(res, s)
		}'''))
bad('r7-env-trim', 'P15', (ENV, '	v := os.Getenv(key)\n', '	v := strings.TrimSpace(os.Getenv(key))\n'), (ENV, '	"os"\n', '	"os"\n	"strings"\n'))
bad('r7-drop-other-conn', 'P09', (MYX, '''	_, err := ie.db.Exec(sql)
	return err
}
''', '''	_, err := ie.db.Exec(sql)
	return err
}

''') , (MYX, '''DROP INDEX `%s`", it.TableName, name)
	_, err := ie.db.Exec(sql)
	return err''', '''DROP INDEX `%s`", it.TableName, name)
	_, err := ie.db.Exec(sql)
	if err != nil && strings.Contains(err.Error(), "check that column/key exists") {
		return nil
	}
	return err'''), (MYX, '	"time"\n', '	"time"\n	"strings"\n'))
bad('r7-drop-if-slow', 'P01', (EX, '''		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
''', '''		if res != nil && res.ExecutionTimeMillis < 0 {
			return
		}
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
'''))
bad('r7-drop-deferred-in-run', 'P01', (EX, '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return dmodel''', '''	millis, err := iee.execute()
	if err != nil {
		log.Fatal().Err(err).Msg("query failed")
	}

	return dmodel'''))
bad('r7-idx-name-closure', 'P02', (EX, '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}

	return dmodel''', '''	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
	idxName = strings.ToLower(idxName)

	return dmodel'''), (EX, '	"strconv"\n', '	"strconv"\n	"strings"\n'))
bad('r7-safe-name', 'P02', (ICOL, 'return nonAsciiReg.ReplaceAllString(ic.Name, "_")', 'return strings.TrimRight(nonAsciiReg.ReplaceAllString(ic.Name, "_"), "_")'), (ICOL, '	"regexp"\n', '	"regexp"\n	"strings"\n'))
bad('r7-equal-names', 'P06', (IT, '''	if len(info.Columns) != len(it.Columns) {
		return false
	}

	for i, col := range info.Columns {''', '''	if len(info.Columns) < len(it.Columns) {
		return false
	}

	for i, col := range info.Columns[:len(it.Columns)] {'''))
bad('r7-exam-dedupe', 'P05', (EX, '''		res, err := iee.examine(id, it)
''', '''		if len(irs) > 0 && irs[len(irs)-1].IndexTarget.Equals(it) {
			continue
		}
		res, err := iee.examine(id, it)
'''))
bad('r7-millis-half', 'P05', (MYX, 'elapsed.Milliseconds()', 'int64(elapsed.Round(10 * time.Millisecond) / time.Millisecond)'))
bad('r7-vm-sorted', 'P13', (ERS, '''	return &viewmodel.VmExaminationResult{
''', '''	if len(virs) > 20 {
		virs = virs[:20]
	}
	return &viewmodel.VmExaminationResult{
'''))
bad('r7-vm-columns', 'P13', (IT, '''		vm.Columns = append(vm.Columns, c.ToViewModel())
''', '''		if v := c.ToViewModel(); len(vm.Columns) == 0 || *vm.Columns[0] != *v {
			vm.Columns = append(vm.Columns, v)
		}
'''))
bad('r7-duration-neg', 'P18', (JF, 'secs := int64(duration.Truncate(time.Second).Seconds())', 'secs := int64(duration.Round(time.Second).Seconds())'))
bad('r7-numtraces', 'P18', (JF, 'NumTraces:    size,', 'NumTraces:    lo.Clamp(size, 1, 1500),'), (JF, '	"time"\n', '	"time"\n	"github.com/samber/lo"\n'))
bad('r7-empty-trace', 'P18', (JF, '''		for _, tree := range trees {
''', '''		for _, tree := range trees {
			if tree.Root == nil || len(tree.Root.Children) == 0 && len(trees) > 1 {
				continue
			}
'''))
bad('r7-heap-limit', 'P25', (HEAP, 'h.h.Len() > h.limit', 'h.h.Len() >= h.limit && h.limit > 1 || h.h.Len() > h.limit'))
bad('r7-heap-swap', 'P25', (HEAP, '''	h.vals[i], h.vals[j] = h.vals[j], h.vals[i]
''', '''	if i > j {
		h.vals[i], h.vals[j] = h.vals[j], h.vals[i]
	}
'''))
bad('r7-pick-ge', 'P25', (TPK, 'tree.MaxSameServiceAccessCount() > threshold', 'tree.MaxSameServiceAccessCount() >= threshold && threshold > 0'))
good('r7-hour-utc', ('lib/time.go', '		t.Location(),\n', '		time.UTC,\n'))
bad('r7-load-key', 'P19', (PSA, 'if loadOfSql.Sql == avg.SQL {', 'if loadOfSql.TokenizedId == avg.TokenizedId {'))
bad('r7-load-max', 'P19', (PSA, '''				dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
					Sql:         avg.SQL,
					LoadMax:     v.Value,''', '''				dbLoad.Sqls = append(dbLoad.Sqls, &viewmodel.VmDbLoadOfSql{
					Sql:         avg.SQL,
					LoadMax:     v.Value / 2,'''))
bad('r7-stack-shared', 'P14', (STK, '''	s.vals = s.vals[:len(s.vals)-1]
''', '''	if len(s.vals) < 64 {
		s.vals = s.vals[:len(s.vals)-1]
	}
'''))
bad('r7-index-rows', 'P17', (MII, '''		lastTName = flatInfo.TableName
		lastIName = flatInfo.IndexName
''', '''		if lastTName != flatInfo.TableName {
			lastTName = flatInfo.TableName
			lastIName = flatInfo.IndexName
		}
'''))
bad('r7-html-append', 'P11', (HB, 'os.Create(filename)', 'os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0600)'))
bad('r7-html-name', 'P11', (HB, 'os.Create(filename)', 'os.Create(filepath.Clean(strings.TrimSpace(filename)))'), (HB, '	"os"\n', '	"os"\n	"path/filepath"\n	"strings"\n'))
bad('r7-param-text', 'P15', (MCF, '		dsn += "?" + cfg.paramText', '		dsn += "?" + url.PathEscape(cfg.paramText)'), (MCF, '	"os"\n', '	"os"\n	"net/url"\n'))
bad('r7-cache-columns', 'P17', (MDB, '''	var cols []*ColumnInfo
	err = db.db.Select(&cols, query, args...)
	if err != nil {
		return nil, errors.Wrap(err, "failed to execute query to get table schema")
	}
''', '''	var cols []*ColumnInfo
	err = db.db.Select(&cols, query, args...)
	if err != nil {
		return nil, errors.Wrap(err, "failed to execute query to get table schema")
	}
	if len(cols) > 1000 {
		cols = cols[:1000]
	}
'''))
bad('r7-default-db', 'P17', (MDB, 'sqlx.In(indexFetchQuery, database, tables)', 'sqlx.In(indexFetchQuery, strings.ToLower(database), tables)'), (MDB, '	"time"\n', '	"time"\n	"strings"\n'))

bad('r7-stack-pop-first', 'P14', (STK, """	v := s.vals[len(s.vals)-1]
	s.vals = s.vals[:len(s.vals)-1]
""", """	v := s.vals[len(s.vals)-1]
	s.vals = s.vals[1:]
"""))
bad('r7-stack-push-bounded', 'P14', (STK, """	s.vals = append(s.vals, val)
""", """	if len(s.vals) < 100 {
		s.vals = append(s.vals, val)
	}
"""))
bad('r7-stack-pop-two', 'P14', (STK, """	s.vals = s.vals[:len(s.vals)-1]
""", """	s.vals = s.vals[:len(s.vals)-2]
"""))
bad('r7-heap-pop-first', 'P25', (HEAP, """	v := h.vals[l]
	h.vals = h.vals[0:l]
""", """	v := h.vals[0]
	h.vals = h.vals[1:]
	_ = l
"""))
bad('r7-heap-overwrite', 'P25', (HEAP, """	h.vals[i], h.vals[j] = h.vals[j], h.vals[i]
""", """	h.vals[i] = h.vals[j]
"""))
good('r7-heap-swap-tmp', (HEAP, """	h.vals[i], h.vals[j] = h.vals[j], h.vals[i]
""", """	if i == j {
		return
	}
	tmp := h.vals[i]
	h.vals[i] = h.vals[j]
	h.vals[j] = tmp
"""))
good('r7-heap-pop-zero', (HEAP, """	l := len(h.vals) - 1
	v := h.vals[l]
	h.vals = h.vals[0:l]

	return v
""", """	old := h.vals
	n := len(old)
	v := old[n-1]
	var zero T
	old[n-1] = zero
	h.vals = old[:n-1]

	return v
"""))
good('r7-stack-if', (STK, """	if len(s.vals) == 0 {
		return nil
	}

	v := s.vals[len(s.vals)-1]
	s.vals = s.vals[:len(s.vals)-1]

	return v
""", """	v := s.Top()
	if len(s.vals) > 0 {
		s.vals = s.vals[:len(s.vals)-1]
	}

	return v
"""))
SETF = 'lib/set.go'; UNIQ = 'lib/uniq.go'
bad('r7-set-contains', 'P26', (SETF, '''	if _, ok := s.vals[val]; ok {
		return true
	}
	return false''', '''	return len(s.vals) > 1 && s.vals[val]'''))
bad('r7-set-contains2', 'P26', (SETF, '''	if _, ok := s.vals[val]; ok {
		return true
	}
	return false''', '''	_, ok := s.vals[val]
	return ok || len(s.vals) > 1000'''))
bad('r7-set-news', 'P26', (SETF, '''	for _, o := range origins {
''', '''	for _, o := range origins[:1] {
'''))
bad('r7-set-delete', 'P26', (SETF, '''	delete(s.vals, val)
''', '''	s.vals[val] = false
'''))
bad('r7-set-add', 'P26', (SETF, '''	s.vals[val] = true
}

func (s *Set[T]) Merge''', '''	if len(s.vals) < 16 {
		s.vals[val] = true
	}
}

func (s *Set[T]) Merge'''))
bad('r7-set-values', 'P26', (SETF, '''	for val := range s.vals {
		vals = append(vals, val)
	}
''', '''	for val := range s.vals {
		if len(vals) < 8 {
			vals = append(vals, val)
		}
	}
'''))
bad('r7-uniq', 'P26', (UNIQ, '''		res = append(res, v)
''', '''		if len(res) < 32 {
			res = append(res, v)
		}
'''))
good('r7-set-bool', (SETF, '''	if _, ok := s.vals[val]; ok {
		return true
	}
	return false''', '''	return s.vals[val]'''))
good('r7-set-merge-direct', (SETF, '''	for _, val := range os.Values() {
		s.Add(val)
	}
''', '''	for val := range os.vals {
		s.vals[val] = true
	}
'''))
good('r7-set-values-pre', (SETF, '''	var vals []T
	for val := range s.vals {
''', '''	vals := make([]T, 0, len(s.vals))
	for val := range s.vals {
'''))

# ---- round 8
VMD8 = 'html/viewmodel/'
bad('r8-compact-parent-other', 'P25', (OTC, 'if span.Parent.ServiceName != span.ServiceName {', 'if span.Parent.ServiceName != span.ServiceName && len(span.Children) < 100 {'))
bad('r8-last-db', 'P25', (OSP, '''	_, ok := s.SpanAttributes[string(semconv.DBSystemKey)]
	return ok''', '''	return s.GetDBSystem() != "" && s.GetDBSystem() != "other_sql"'''))
bad('r8-children-sort-end', 'P23', (OSP, 'return s.Children[i].StartTimeUnixNano < s.Children[j].StartTimeUnixNano', 'return s.Children[i].StartTimeUnixNano/1000000 < s.Children[j].StartTimeUnixNano/1000000'))
bad('r8-vm-spanid', 'P23', (OSP, 'SpanId:          fmt.Sprintf("%x", s.SpanId),', 'SpanId:          strings.TrimLeft(fmt.Sprintf("%x", s.SpanId), "0"),'), (OSP, '	"sort"\n', '	"sort"\n	"strings"\n'))
bad('r8-vm-start', 'P23', (OSP, 'EndTimeMillis:   int(s.EndTimeUnixNano / 1000 / 1000),', 'EndTimeMillis:   int((s.StartTimeUnixNano + s.Duration()/1000*1000) / 1000 / 1000),'))
bad('r8-root-prefix', 'P23', (V1C, '''	for _, b := range span.ParentSpanId {
''', '''	for _, b := range span.ParentSpanId[len(span.ParentSpanId)/2:] {
'''))
bad('r8-parent-alias', 'P23', (V1C, 'spanIdMap[string(h.orig.ParentSpanId)]', 'spanIdMap[strings.TrimRight(string(h.orig.ParentSpanId), "\\x00")]'), (V1C, '	"reflect"\n', '	"reflect"\n	"strings"\n'))
bad('r8-chunk-merge', 'P18', (JCL, '''		traces = append(traces, &Trace{Spans: spans})
''', '''		if n := len(traces); n > 0 && len(spans) > 0 && len(traces[n-1].Spans) == 0 {
			continue
		}
		traces = append(traces, &Trace{Spans: spans})
'''))
bad('r8-jaeger-timeout', 'P18', (JCL, '''	resp, err := client.FindTraces(ctx, req)
''', '''	req.Query.NumTraces = min32(req.Query.NumTraces, 100)
	resp, err := client.FindTraces(ctx, req)
'''), (JCL, 'func (c *Client) Close()', '''func min32(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func (c *Client) Close()'''))
bad('r8-eof-canceled', 'P09', (JCL, 'if errors.Is(err, io.EOF) {', 'if errors.Is(err, io.EOF) || len(traces) > 0 && errors.Is(err, context.DeadlineExceeded) {'))
bad('r8-pi-parse', 'P19', (PICMD, 'startFrom = t\n', 'startFrom = t.Truncate(24 * time.Hour)\n'))
bad('r8-pi-dbs', 'P19', (PICMD, 'for i := 0; i < 14; i++ {', 'for i := 0; i < 14 && current.Before(time.Now()); i++ {'))
bad('r8-pi-tok-start', 'P19', (PICMD, 'aws.ConvertPiSQLLoadAvgsToVms(startFrom, end, tokenizedSqlLoadAvgs)', 'aws.ConvertPiSQLLoadAvgsToVms(startFrom, time.Now(), tokenizedSqlLoadAvgs)'))
bad('r8-pi-swapbo', 'P19', (PICMD, 'html.NewPerformanceInsightsDataBuildOption(sqlDbLoads, tokenizedSqlDbLoads)', 'html.NewPerformanceInsightsDataBuildOption(tokenizedSqlDbLoads, sqlDbLoads)'))
good('r8-load-vm-time', (PSA, 'res = append(res, viewmodel.NewVmTimeDbLoad(target))', 'res = append(res, viewmodel.NewVmTimeDbLoad(target.Local()))'))
bad('r8-gql-errors', 'P24', (HCL, '	if len(res.Errors) > 0 {', '	if len(res.Errors) > 1 {'))
bad('r8-header-set', 'P24', (HCL, '	for k, v := range c.headers {\n', '	for k, v := range c.headers {\n		if body == nil || v == "" {\n			continue\n		}\n		if len(v) > 64 {\n			v = v[:64]\n		}\n'))
bad('r8-log-body', 'P16', (HCL, '	res, err := http.DefaultClient.Do(req)\n', '	log.Debug().Interface("header", req.Header).Msg("Sending a request to Hasura")\n	res, err := http.DefaultClient.Do(req)\n'), (HCL, '	"net/http"\n', '	"net/http"\n	"github.com/rs/zerolog/log"\n'))
bad('r8-err-cfg', 'P16', ('infra/mysql/config.go', '''		dsn += "?" + cfg.paramText
	}
''', '''		dsn += "?" + cfg.paramText
	}
	if _, err := mysql.ParseDSN(dsn); err != nil {
		os.Stderr.WriteString("invalid DSN: " + dsn)
	}
'''))
bad('r8-close-early', 'P22', (JCMD, '''	defer cli.Close()
''', '''	go func() { _ = cli.Close() }()
''') )
bad('r8-omit', 'P12', (VMD8 + 'vm_examination_index_result.go', '`json:"executionTimeMillis"`', '`json:"executionTimeMillis,string"`'))
bad('r8-css', 'P10', (HB, '''		"style":  template.CSS(style),
''', '''		"style":  template.CSS(string(style) + "/* " + filename + " */"),
'''))
bad('r8-null-plan', 'P12', (VMD8 + 'vm_time_db_load.go', 'Databases: []*VmDbLoad{}', 'Databases: nil'))

# ---- null lists
DRER = 'database/dmodel/examination_result.go'
VIRS = '	virs := []*viewmodel.VmExaminationIndexResult{}\n'
SLOWS = '''	slows := lo.Map(slowTraces, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})
'''
bad('p12-null-virs', 'P12', (DRER, VIRS, '	var virs []*viewmodel.VmExaminationIndexResult\n'))
bad('p12-null-slows', 'P12', (JCMD, SLOWS, '''	var slows []*viewmodel.VmOtelCompactTrace
	for _, trace := range slowTraces {
		slows = append(slows, trace.ToCompactViewModel())
	}
'''))
bad('p12-null-slows-early', 'P12', (JCMD, SLOWS, '''	slows := compactVms(slowTraces)
'''), (JCMD, 'func (jr *jaegerRunner) createHTML(', '''func compactVms(trees []*omodel.TraceTree) []*viewmodel.VmOtelCompactTrace {
	if len(trees) == 0 {
		return nil
	}
	return lo.Map(trees, func(trace *omodel.TraceTree, _ int) *viewmodel.VmOtelCompactTrace {
		return trace.ToCompactViewModel()
	})
}

func (jr *jaegerRunner) createHTML('''))
bad('p12-null-span-children', 'P12', (OSP, '	children := lo.Map(s.Children, func(c *Span, _ int) *viewmodel.VmOtelTraceSpan { return c.ToViewModel() })\n', '''	var children []*viewmodel.VmOtelTraceSpan
	for _, c := range s.Children {
		children = append(children, c.ToViewModel())
	}
'''))
good('p12-g-virs-make', (DRER, VIRS, '	virs := make([]*viewmodel.VmExaminationIndexResult, 0, len(er.IndexResults))\n'))
good('p12-g-virs-if', (DRER, VIRS, '	var virs []*viewmodel.VmExaminationIndexResult\n	if virs == nil {\n		virs = []*viewmodel.VmExaminationIndexResult{}\n	}\n'))
good('p12-g-slows-make', (JCMD, SLOWS, '''	slows := make([]*viewmodel.VmOtelCompactTrace, 0)
	for _, trace := range slowTraces {
		slows = append(slows, trace.ToCompactViewModel())
	}
'''))
good('p12-g-slows-index', (JCMD, SLOWS, '''	slows := make([]*viewmodel.VmOtelCompactTrace, len(slowTraces))
	for i, trace := range slowTraces {
		slows[i] = trace.ToCompactViewModel()
	}
'''))
good('p12-g-slows-late', (JCMD, SLOWS, '''	var slows []*viewmodel.VmOtelCompactTrace
	for _, trace := range slowTraces {
		slows = append(slows, trace.ToCompactViewModel())
	}
	if slows == nil {
		slows = []*viewmodel.VmOtelCompactTrace{}
	}
'''))
good('p12-g-slows-helper', (JCMD, SLOWS, '''	slows := compactVms(slowTraces)
'''), (JCMD, 'func (jr *jaegerRunner) createHTML(', '''func compactVms(trees []*omodel.TraceTree) []*viewmodel.VmOtelCompactTrace {
	if len(trees) == 0 {
		return []*viewmodel.VmOtelCompactTrace{}
	}
	var res []*viewmodel.VmOtelCompactTrace
	for _, t := range trees {
		res = append(res, t.ToCompactViewModel())
	}
	return res
}

func (jr *jaegerRunner) createHTML('''))

# ---- helpers extracted
MYRES = '''	rootNode.Accept(sc)
	if len(sc.errors) > 0 {
		return nil, sc.errors
	}

	return sc.scopes, nil
}
'''
good('x-my-result-method', (MSC, MYRES, '''	rootNode.Accept(sc)
	return sc.result()
}

func (sc *scopeCollector) result() ([]*dparser.StmtScope, []error) {
	if len(sc.errors) > 0 {
		return nil, sc.errors
	}

	return sc.scopes, nil
}
'''))
bad('x-my-result-method-lost', 'P09', (MSC, MYRES, '''	rootNode.Accept(sc)
	return sc.result()
}

func (sc *scopeCollector) result() ([]*dparser.StmtScope, []error) {
	if len(sc.errors) > 0 && len(sc.scopes) == 0 {
		return nil, sc.errors
	}

	return sc.scopes, nil
}
'''))
