SEEDS = []
def seed(sid, prop, needs, breaks, pkg, demo, *edits): SEEDS.append((sid, prop, needs, breaks, pkg, demo, edits))

EX = 'database/dservice/examiner.go'
MYX = 'database/mysql/mservice/index_examiner.go'
PGX = 'database/postgres/pservice/index_examiner.go'
HSX = 'database/hasura/hservice/index_examiner.go'
MYC = 'cmd/db/suggest/mysql.go'
PGC = 'cmd/db/suggest/postgres.go'
HSC = 'cmd/db/suggest/hasura/postgres.go'
IT = 'database/dmodel/index_target.go'

EXDEMO = '''
package dservice

import (
	"errors"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
)

type fakeExaminer struct {
	n       int
	failAt  int
	live    map[string]bool
	created []string
}

func (f *fakeExaminer) Execute() (int64, error) {
	f.n++
	if f.n == f.failAt {
		return 0, errors.New("query failed")
	}
	return 1, nil
}
func (f *fakeExaminer) CreateIndex(n string, it *dmodel.IndexTarget) error {
	f.live[n] = true
	f.created = append(f.created, n)
	return nil
}
func (f *fakeExaminer) DropIndex(n string, it *dmodel.IndexTarget) error {
	if !f.live[n] {
		return errors.New("no such index: " + n)
	}
	delete(f.live, n)
	return nil
}

func TestPlantedDemo(t *testing.T) {
	its := []*dmodel.IndexTarget{
		dmodel.NewIndexTarget("users", []string{"name"}),
		dmodel.NewIndexTarget("users", []string{"a_rather_long_column_name", "another_rather_long_column_name"}),
	}
	for failAt := 1; failAt <= 4; failAt++ {
		f := &fakeExaminer{failAt: failAt, live: map[string]bool{}}
		_, err := NewIndexEfficiencyExaminer(f).Run(its)
		if failAt <= 3 && err == nil {
			t.Errorf("failure of execution %d is not reported", failAt)
		}
		if failAt == 4 && err != nil {
			t.Errorf("unexpected failure: %v", err)
		}
		if len(f.live) != 0 {
			t.Errorf("indexes left behind when execution %d fails: %v", failAt, f.live)
		}
	}
}
'''

seed('p01-drop-after-execution', 'P01', 'the examined query fails (timeout, lost connection) while a candidate index exists',
     'the index created for the examination stays in the user\'s database', 'database/dservice', EXDEMO,
     (EX, '''	defer func() {
		log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
		err2 := iee.ie.DropIndex(idxName, it)
		if err == nil {
			err = errors.Wrap(err2, "failed to drop index")
		}
	}()

	millis, err := iee.execute()
	if err != nil {
		return nil, err
	}
''', '''	millis, err := iee.execute()
	if err != nil {
		return nil, errors.Wrapf(err, "failed to execute with index(%s)", idxName)
	}

	log.Info().Msg(fmt.Sprintf("Dropping index(%s)...", idxName))
	err = iee.ie.DropIndex(idxName, it)
	if err != nil {
		return nil, errors.Wrap(err, "failed to drop index")
	}
'''))

seed('p02-drop-other-name', 'P02', 'a candidate whose index name has to be shortened (long column names)',
     'the name given to DROP INDEX is not the name of the created index, so the index stays', 'database/dservice', EXDEMO,
     (EX, '''	if len(idxName) > maxIdxNameLen {
		idxName = fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
	}
''', '''	uniqueName := func() string {
		if len(idxName) > maxIdxNameLen {
			return fmt.Sprintf("%s_%d", idxName[:maxIdxNameLen], rand.Intn(999999999))
		}
		return idxName
	}
'''), (EX, '''	err = iee.ie.CreateIndex(idxName, it)''', '''	err = iee.ie.CreateIndex(uniqueName(), it)'''),
     (EX, '''iee.ie.DropIndex(idxName, it)''', '''iee.ie.DropIndex(uniqueName(), it)'''))

seed('p03-last-column-only', 'P03', 'a table with a column named with quotes that is not the last column of a candidate',
     'a column name with quoting characters reaches the text of ALTER TABLE', 'database/dmodel', '''
package dmodel

import "testing"

func TestPlantedDemo(t *testing.T) {
	for _, cols := range [][]string{{"a` b", "c"}, {"c", "a` b"}, {"x", "a` b", "y"}} {
		if NewIndexTarget("users", cols).IsSafe() {
			t.Errorf("%q is regarded as safe", cols)
		}
	}
	if NewIndexTarget("us` ers", []string{"a"}).IsSafe() {
		t.Error("unsafe table is regarded as safe")
	}
	if !NewIndexTarget("users", []string{"a", "b"}).IsSafe() {
		t.Error("safe target is regarded as unsafe")
	}
}
''', (IT, '''	for _, c := range it.Columns {
		if c.Name != c.SafeName() {
			return false
		}
	}

	return true
''', '''	safe := true
	for _, c := range it.Columns {
		safe = c.Name == c.SafeName()
	}

	return safe
'''))

seed('p04-index-flag-examines', 'P04', '--index given without --with-examine',
     'without --with-examine the database is altered', 'cmd/db/suggest', '''
package suggest

import (
	"regexp"
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func TestPlantedDemo(t *testing.T) {
	query := "SELECT id FROM users WHERE name = 'a'"
	r := mysqlRunner{query: query, indexTargets: []string{"users:name"}}
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		mock.MatchExpectationsInOrder(false)
		mock.ExpectQuery("EXPLAIN ANALYZE").WillReturnRows(sqlmock.NewRows([]string{"EXPLAIN"}).AddRow("-> Rows fetched before execution  (cost=0.00..0.00 rows=1) (actual time=0.000..0.000 rows=1 loops=1)\\n"))
		mock.ExpectQuery("information_schema.*COLUMNS|COLUMN_KEY").WillReturnRows(sqlmock.NewRows([]string{"COLUMN_NAME", "COLUMN_KEY", "TABLE_NAME"}).AddRow("id", "PRI", "users").AddRow("name", "", "users"))
		mock.ExpectQuery("information_schema.STATISTICS").WillReturnRows(sqlmock.NewRows([]string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}).AddRow("users", "PRIMARY", "id"))
		mock.ExpectExec(regexp.QuoteMeta(query)).WillReturnResult(sqlmock.NewResult(0, 0))
		mock.ExpectExec("ADD INDEX").WillReturnResult(sqlmock.NewResult(0, 0))
		mock.ExpectExec(regexp.QuoteMeta(query)).WillReturnResult(sqlmock.NewResult(0, 0))
		mock.ExpectExec("DROP INDEX").WillReturnResult(sqlmock.NewResult(0, 0))
		if err := r.suggest("", db, "gravityr"); err != nil {
			t.Error(err)
		}
		if mock.ExpectationsWereMet() == nil {
			t.Error("the database was altered without --with-examine")
		}
		// keep the helper content: it requires all expectations to be used
		_, _ = db.Exec(query)
		_, _ = db.Exec("ADD INDEX")
		_, _ = db.Exec(query)
		_, _ = db.Exec("DROP INDEX")
	})
}
''', (MYC, '''	if mr.runsExamination {
		er, err =''', '''	if mr.runsExamination || len(examinationIdxTargets) > 0 {
		er, err ='''))

seed('p05-reused-result', 'P05', 'two tables with candidates on columns of the same names',
     'the second candidate is reported with the time of the first and is never measured', 'database/dservice', '''
package dservice

import (
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
)

type timedExaminer struct{ executed, created int }

func (f *timedExaminer) Execute() (int64, error) { f.executed++; return int64(100 * f.executed), nil }
func (f *timedExaminer) CreateIndex(n string, it *dmodel.IndexTarget) error {
	f.created++
	return nil
}
func (f *timedExaminer) DropIndex(n string, it *dmodel.IndexTarget) error { return nil }

func TestPlantedDemo(t *testing.T) {
	f := &timedExaminer{}
	res, err := NewIndexEfficiencyExaminer(f).Run([]*dmodel.IndexTarget{
		dmodel.NewIndexTarget("users", []string{"name"}),
		dmodel.NewIndexTarget("posts", []string{"name"}),
	})
	if err != nil {
		t.Fatal(err)
	}
	if f.created != 2 || f.executed != 3 {
		t.Errorf("created %d, executed %d", f.created, f.executed)
	}
	for i, r := range res.IndexResults {
		if r.ExecutionTimeMillis != int64(100*(i+2)) {
			t.Errorf("%s: %d", r.IndexTarget.CombinationString(), r.ExecutionTimeMillis)
		}
	}
}
''', (EX, '''	for _, it := range its {
		res, err := iee.examine(id, it)
		if err != nil {
			return nil, err
		}

		irs''', '''	measured := map[string]int64{}
	for _, it := range its {
		key := lib.Join(it.Columns, ",", func(i *dmodel.IndexColumn) string { return i.SafeName() })
		if millis, ok := measured[key]; ok {
			irs = append(irs, dmodel.NewExaminationIndexResult(it, millis))
			continue
		}

		res, err := iee.examine(id, it)
		if err != nil {
			return nil, err
		}
		measured[key] = res.ExecutionTimeMillis

		irs'''))

MSCP = 'database/mysql/mservice/parser/collect_stmt_scopes.go'
seed('p07-else-of-simple-case', 'P07', 'a simple CASE (with an operand) whose ELSE refers to a column found nowhere else',
     'the column of ELSE is never suggested', 'database/mysql/mservice/parser', '''
package parser

import (
	"testing"

	"github.com/pingcap/tidb/parser"
	_ "github.com/pingcap/tidb/parser/test_driver"
)

func TestPlantedDemo(t *testing.T) {
	for _, q := range []string{
		"SELECT 1 FROM users WHERE CASE a WHEN 1 THEN 2 ELSE els END = 3",
		"SELECT 1 FROM users WHERE CASE WHEN a THEN 2 ELSE els END = 3",
		"SELECT 1 FROM users WHERE CASE a WHEN 1 THEN els ELSE b END = 3",
	} {
		n, err := parser.New().ParseOneStmt(q, "", "")
		if err != nil {
			t.Fatal(err)
		}
		scopes, errs := CollectStmtScopes(n)
		if len(errs) > 0 {
			t.Fatal(errs)
		}
		found := false
		for _, f := range scopes[0].Fields {
			for _, c := range f.Columns {
				found = found || c.Name == "els"
			}
		}
		if !found {
			t.Errorf("column els is overlooked in %s", q)
		}
	}
}
''', (MSCP, '''		res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
		for _, w := range e.WhenClauses {''', '''		if e.Value != nil {
			res = append(res, sc.collectExprReferences(e.Value, defaultType)...)
			for _, w := range e.WhenClauses {
				res = append(res, sc.collectExprReferences(w.Expr, defaultType)...)
				res = append(res, sc.collectExprReferences(w.Result, defaultType)...)
			}
			return res
		}
		for _, w := range e.WhenClauses {'''))

JC = 'infra/jaeger/client.go'
seed('p09-partial-traces', 'P09', 'the connection to Jaeger breaks after some traces were received',
     'an incomplete set of traces is reported as if it were complete', 'infra/jaeger', '''
package jaeger

import (
	"context"
	"errors"
	"net"
	"testing"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	v1 "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type breakingServer struct {
	api_v3.QueryServiceServer
	chunks int
}

func (s *breakingServer) FindTraces(_ *api_v3.FindTracesRequest, st api_v3.QueryService_FindTracesServer) error {
	for i := 0; i < s.chunks; i++ {
		if err := st.Send(&api_v3.SpansResponseChunk{ResourceSpans: []*v1.ResourceSpans{{}}}); err != nil {
			return err
		}
	}
	return errors.New("storage is gone")
}

func TestPlantedDemo(t *testing.T) {
	for chunks := 0; chunks < 3; chunks++ {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		s := grpc.NewServer()
		api_v3.RegisterQueryServiceServer(s, &breakingServer{chunks: chunks})
		go func() { _ = s.Serve(lis) }()
		conn, err := grpc.DialContext(context.Background(), lis.Addr().String(), grpc.WithBlock(), grpc.WithTransportCredentials(insecure.NewCredentials()))
		if err != nil {
			t.Fatal(err)
		}
		if traces, err := NewClient(conn).FindTraces(&api_v3.TraceQueryParameters{}); err == nil {
			t.Errorf("no error after %d chunks (%d traces)", chunks, len(traces))
		}
		_ = conn.Close()
		s.Stop()
	}
}
''', (JC, '''			if errors.Is(err, io.EOF) {
				break
			}
''', '''			if errors.Is(err, io.EOF) || len(traces) > 0 {
				break
			}
'''))

HB = 'html/html_builder.go'
seed('p10-raw-json', 'P10', 'a query or database text containing </script>',
     'text from the query or the database is executed as script when the report is opened', 'html', '''
package html

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/thelper"
)

func TestPlantedDemo(t *testing.T) {
	thelper.InjectClientDist()
	f := filepath.Join(t.TempDir(), "out.html")
	bo := NewSuggestMySQLDataBuildOption("SELECT '</script><img src=x>'", nil, nil, []*viewmodel.VmExaminationCommandOption{}, nil)
	if err := CreateHtml(TypeMain, f, bo); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(b), "img src=x") {
		t.Error("the query is not in the report")
	}
	if strings.Contains(string(b), "<img src=x>") {
		t.Error("markup of the query is not escaped")
	}
}
''', (HB, '''	tpl, err := template.New("").Parse(tmpl)
''', '''	var gr bytes.Buffer
	enc := json.NewEncoder(&gr)
	enc.SetEscapeHTML(false)
	err = enc.Encode(bo.createGrMap())
	if err != nil {
		return errors.Wrap(err, "failed to encode data of html")
	}

	tpl, err := template.New("").Parse(tmpl)
'''), (HB, '''		"gr":     bo.createGrMap(),
''', '''		"gr":     template.JS(gr.String()),
'''), (HB, '''import (
''', '''import (
	"bytes"
	"encoding/json"
'''))

seed('p11-no-truncate', 'P11', 'an --output file that exists and is longer than the new report',
     'the report is followed by the rest of the previous file', 'html', '''
package html

import (
	"bytes"
	"os"
	"path/filepath"
	"testing"

	"github.com/mrasu/GravityR/html/viewmodel"
	"github.com/mrasu/GravityR/thelper"
)

func TestPlantedDemo(t *testing.T) {
	thelper.InjectClientDist()
	dir := t.TempDir()
	bo := NewSuggestMySQLDataBuildOption("SELECT 1", nil, nil, []*viewmodel.VmExaminationCommandOption{}, nil)
	fresh, stale := filepath.Join(dir, "fresh.html"), filepath.Join(dir, "stale.html")
	if err := os.WriteFile(stale, bytes.Repeat([]byte("x"), 1<<20), 0o600); err != nil {
		t.Fatal(err)
	}
	for _, f := range []string{fresh, stale} {
		if err := CreateHtml(TypeMain, f, bo); err != nil {
			t.Fatal(err)
		}
	}
	a, _ := os.ReadFile(fresh)
	b, _ := os.ReadFile(stale)
	if !bytes.Equal(a, b) {
		t.Errorf("report depends on the previous content of the file: %d and %d bytes", len(a), len(b))
	}
}
''', (HB, '''	f, err := os.Create(filename)
''', '''	f, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0o644)
'''))

EIRF = 'database/dservice/existing_index_remover.go'
seed('p06-any-table', 'P06', 'two tables in the query with columns of the same name, only one of them indexed',
     'a useful candidate is removed because another table has such an index', 'database/dservice', '''
package dservice

import (
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
)

type fixedGetter []*dmodel.IndexTarget

func (g fixedGetter) GetIndexes(string, []string) ([]*dmodel.IndexTarget, error) { return g, nil }

func TestPlantedDemo(t *testing.T) {
	its := []*dmodel.IndexTarget{
		dmodel.NewIndexTarget("users", []string{"name"}),
		dmodel.NewIndexTarget("posts", []string{"name"}),
		dmodel.NewIndexTarget("tags", []string{"id"}),
	}
	existing := fixedGetter{dmodel.NewIndexTarget("posts", []string{"name"}), dmodel.NewIndexTarget("tags", []string{"name"})}
	res, err := NewExistingIndexRemover(existing, "db", its).Remove()
	if err != nil {
		t.Fatal(err)
	}
	if len(res) != 2 || res[0].TableName != "users" || res[1].TableName != "tags" {
		t.Errorf("unexpected candidates: %v", res)
	}
}
''', (EIRF, '''	idxGroups := lo.GroupBy(idxInfos, func(i *dmodel.IndexTarget) string { return i.TableName })

	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool {
		if idxes, ok := idxGroups[it.TableName]; ok {
			for _, id := range idxes {
				if it.HasSameIdxColumns(id) {
					return false
				}
			}
			return true
		} else {
			return true
		}
	})
''', '''	return lo.Filter(its, func(it *dmodel.IndexTarget, _ int) bool {
		return lo.NoneBy(idxInfos, it.HasSameIdxColumns)
	})
'''))

PSCP = 'database/postgres/pservice/parser/collect_stmt_scopes.go'
seed('p08-star-of-other-schema', 'P08', 'a query selecting all columns of a table qualified with another schema (other.users.*)',
     'a table of another schema is analysed as if it was the one of the search path', 'database/postgres/pservice/parser', '''
package parser

import (
	"testing"

	"github.com/auxten/postgresql-parser/pkg/sql/parser"
)

func TestPlantedDemo(t *testing.T) {
	for _, q := range []string{
		"SELECT other.users.id FROM users",
		"SELECT other.users.* FROM users",
	} {
		n, err := parser.Parse(q)
		if err != nil {
			t.Fatal(err)
		}
		if _, errs := CollectStmtScopes(&n[0], "public"); len(errs) == 0 {
			t.Errorf("not refused: %s", q)
		}
	}
}
''', (PSCP, '''		if sc.isSchemaSpecified(e, 2) {
''', '''		if !e.Star && sc.isSchemaSpecified(e, 2) {
'''))

EIM = 'html/viewmodel/vm_examination_index_result.go'
seed('p12-omit-zero-time', 'P12', 'an examined query which takes less than a millisecond with the index',
     'the client finds no executionTimeMillis and shows undefined/NaN for the fastest candidate', 'html/viewmodel', '''
package viewmodel

import (
	"encoding/json"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, millis := range []int64{0, 1} {
		b, err := json.Marshal(&VmExaminationIndexResult{ExecutionTimeMillis: millis, IndexTarget: &VmIndexTarget{}})
		if err != nil {
			t.Fatal(err)
		}
		m := map[string]interface{}{}
		if err := json.Unmarshal(b, &m); err != nil {
			t.Fatal(err)
		}
		if _, ok := m["executionTimeMillis"]; !ok {
			t.Errorf("no executionTimeMillis for %d", millis)
		}
	}
}
''', (EIM, '`json:"executionTimeMillis"`', '`json:"executionTimeMillis,omitempty"`'))

seed('p13-only-improvements', 'P13', 'a candidate index with which the query takes more than twice as long',
     'examined indexes which do not help are missing in the report', 'database/dmodel', '''
package dmodel

import "testing"

func TestPlantedDemo(t *testing.T) {
	var irs []*ExaminationIndexResult
	for _, millis := range []int64{5, 10, 30} {
		irs = append(irs, NewExaminationIndexResult(NewIndexTarget("users", []string{"name"}), millis))
	}
	vm := NewExaminationResult(irs, 10).ToViewModel()
	if len(vm.IndexResults) != 3 {
		t.Errorf("%d of 3 results are reported", len(vm.IndexResults))
	}
}
''', ('database/dmodel/examination_result.go', '''	for _, ir := range er.IndexResults {
		virs = append(virs, ir.ToViewModel())
	}
''', '''	for _, ir := range er.IndexResults {
		if er.OriginalTimeMillis == 0 || ir.ExecutionTimeMillis <= 2*er.OriginalTimeMillis {
			virs = append(virs, ir.ToViewModel())
		}
	}
'''))

seed('p14-never-executed', 'P14', 'a plan with a part which the server did not execute',
     'the lines of the plan which were never executed are missing in the report', 'database/mysql/mservice', '''
package mservice

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func TestPlantedDemo(t *testing.T) {
	plan := "-> Nested loop inner join  (cost=1.00 rows=1) (actual time=0.1..0.2 rows=0 loops=1)\\n" +
		"    -> Table scan on a  (cost=1.00 rows=1) (actual time=0.1..0.2 rows=0 loops=1)\\n" +
		"    -> Table scan on b  (cost=1.00 rows=1) (never executed)\\n"
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		mock.ExpectQuery("EXPLAIN ANALYZE").WillReturnRows(sqlmock.NewRows([]string{"EXPLAIN"}).AddRow(plan))
		tree, err := NewExplainer(db).ExplainWithAnalyze("SELECT 1")
		if err != nil {
			t.Fatal(err)
		}
		if n := len(tree.Root.Children[0].Children); n != 2 {
			t.Errorf("%d of 2 children", n)
		}
	})
}
''', ('database/mysql/mservice/explainer.go', '''		if line == "" {
''', '''		if line == "" || strings.HasSuffix(line, "(never executed)") {
'''))

seed('p15-address-of-tcp-only', 'P15', 'DB_PROTOCOL=unix with DB_ADDRESS naming the socket',
     'the given socket is ignored and the default one is used', 'infra/mysql', '''
package mysql

import (
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	t.Setenv("DB_USERNAME", "u")
	t.Setenv("DB_DATABASE", "d")
	for _, c := range [][]string{{"", "db.example:3307"}, {"tcp", "db.example:3307"}, {"unix", "/run/other.sock"}} {
		t.Setenv("DB_PROTOCOL", c[0])
		t.Setenv("DB_ADDRESS", c[1])
		cfg, err := NewConfigFromEnv()
		if err != nil {
			t.Fatal(err)
		}
		if !strings.Contains(cfg.ToDSN(), "("+c[1]+")") {
			t.Errorf("%s is not used: %s", c[1], cfg.ToDSN())
		}
	}
}
''', ('infra/mysql/config.go', '''	if len(address) > 0 {
''', '''	if len(address) > 0 && protocol == "tcp" {
'''))

seed('p17-merged-primary-keys', 'P17', 'an index followed by one of the same name of the next table in the catalog (PRIMARY of tables with no other index)',
     'the indexes of two tables are read as one index', 'infra/mysql', '''
package mysql

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/jmoiron/sqlx"
)

func TestPlantedDemo(t *testing.T) {
	conn, mock, err := sqlmock.New()
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	mock.ExpectQuery("SELECT").WillReturnRows(sqlmock.NewRows([]string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}).
		AddRow("posts", "PRIMARY", "id").AddRow("posts", "PRIMARY", "rev").AddRow("users", "PRIMARY", "id").AddRow("users", "names", "name"))
	infos, err := NewDB(sqlx.NewDb(conn, "mysql")).GetIndexes("d", []string{"posts", "users"})
	if err != nil {
		t.Fatal(err)
	}
	if len(infos) != 3 || len(infos[0].Columns) != 2 || infos[1].TableName != "users" {
		t.Errorf("unexpected indexes: %d", len(infos))
	}
}
''', ('infra/mysql/index_info.go', '''		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
''', '''		if lastIName == flatInfo.IndexName && (lastTName == flatInfo.TableName || lastIName == "PRIMARY") {
'''))

seed('p18-gap-between-windows', 'P18', 'a trace in the last second of one of the half-hour windows asked for',
     'traces within the requested time are never asked for', 'otel/jaeger', '''
package jaeger

import (
	"context"
	"net"
	"testing"
	"time"

	"github.com/jaegertracing/jaeger/proto-gen/api_v3"
	iJaeger "github.com/mrasu/GravityR/infra/jaeger"
	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
)

type recordingServer struct {
	api_v3.QueryServiceServer
	params []*api_v3.TraceQueryParameters
}

func (s *recordingServer) FindTraces(r *api_v3.FindTracesRequest, st api_v3.QueryService_FindTracesServer) error {
	s.params = append(s.params, r.Query)
	return nil
}

func TestPlantedDemo(t *testing.T) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	rec := &recordingServer{}
	s := grpc.NewServer()
	api_v3.RegisterQueryServiceServer(s, rec)
	go func() { _ = s.Serve(lis) }()
	defer s.Stop()
	conn, err := grpc.DialContext(context.Background(), lis.Addr().String(), grpc.WithBlock(), grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		t.Fatal(err)
	}
	defer conn.Close()
	start := time.Date(2022, 8, 1, 0, 0, 0, 0, time.UTC)
	end := start.Add(90 * time.Minute)
	if _, err := NewTraceFetcher(iJaeger.NewClient(conn)).FetchCompactedTraces(10, start, end, "s", 0); err != nil {
		t.Fatal(err)
	}
	covered := start.Unix()
	for _, p := range rec.params {
		if p.StartTimeMin.Seconds > covered {
			t.Errorf("nothing is asked for between %d and %d", covered, p.StartTimeMin.Seconds)
		}
		covered = p.StartTimeMax.Seconds
	}
	if covered < end.Unix() {
		t.Errorf("nothing is asked for after %d", covered)
	}
}
''', ('otel/jaeger/trace_fetcher.go', '''			StartTimeMax: &types.Timestamp{Seconds: start.Add(interval).Unix()},
''', '''			StartTimeMax: &types.Timestamp{Seconds: start.Add(interval).Unix() - 1},
'''))

seed('p19-small-loads', 'P19', 'a statement whose load is small in each period but large in sum',
     'small loads are left out of the sums', 'infra/aws', '''
package aws

import (
	"context"
	"testing"
	"time"

	aPi "github.com/aws/aws-sdk-go-v2/service/pi"
	"github.com/aws/aws-sdk-go-v2/service/pi/types"
)

type fixedMetrics struct{ out *aPi.GetResourceMetricsOutput }

func (f fixedMetrics) GetResourceMetrics(context.Context, *aPi.GetResourceMetricsInput, ...func(*aPi.Options)) (*aPi.GetResourceMetricsOutput, error) {
	return f.out, nil
}

func TestPlantedDemo(t *testing.T) {
	start := time.Date(2022, 8, 1, 0, 0, 0, 0, time.UTC)
	metric := "db.load.avg"
	var dps []types.DataPoint
	for i, v := range []float64{0.5, 0, 0.0078125} {
		v, ts := v, start.Add(time.Duration(i)*time.Hour)
		dps = append(dps, types.DataPoint{Value: &v, Timestamp: &ts})
	}
	out := &aPi.GetResourceMetricsOutput{MetricList: []types.MetricKeyDataPoints{{
		Key:        &types.ResponseResourceMetricKey{Metric: &metric, Dimensions: map[string]string{"db.sql.statement": "SELECT 1"}},
		DataPoints: dps,
	}}}
	avgs, err := NewPerformanceInsightsWithCli(fixedMetrics{out}).GetHalfDaySqlMetrics(&RdsDB{}, start)
	if err != nil {
		t.Fatal(err)
	}
	sum := 0.0
	for _, a := range avgs {
		for _, v := range a.Values {
			sum += v.Value
		}
	}
	if sum != 0.5078125 {
		t.Errorf("load of 0.5078125 is read as %v", sum)
	}
}
''', ('infra/aws/performance_insights.go', '''			if *dp.Value == 0 {
				continue
			}
''', '''			if *dp.Value < 0.01 {
				continue
			}
'''))

seed('p23-namespace-as-service', 'P23', 'a resource with service.namespace (or service.instance.id) before service.name',
     'spans are attributed to the namespace instead of their service', 'otel/jaeger', '''
package jaeger

import (
	"testing"

	common "github.com/jaegertracing/jaeger/proto-gen/otel/common/v1"
	resource "github.com/jaegertracing/jaeger/proto-gen/otel/resource/v1"
	trace "github.com/jaegertracing/jaeger/proto-gen/otel/trace/v1"
)

func TestPlantedDemo(t *testing.T) {
	str := func(k, v string) *common.KeyValue {
		return &common.KeyValue{Key: k, Value: &common.AnyValue{Value: &common.AnyValue_StringValue{StringValue: v}}}
	}
	for _, attrs := range [][]*common.KeyValue{
		{str("service.name", "users")},
		{str("service.namespace", "shop"), str("service.name", "users")},
		{str("service.name", "users"), str("service.namespace", "shop")},
	} {
		trees := ToTraceTrees([]*trace.ResourceSpans{{
			Resource:                    &resource.Resource{Attributes: attrs},
			InstrumentationLibrarySpans: []*trace.InstrumentationLibrarySpans{{Spans: []*trace.Span{{SpanId: []byte{1}}}}},
		}})
		if got := trees[0].Root.ServiceName; got != "users" {
			t.Errorf("service is %q", got)
		}
	}
}
''', ('otel/jaeger/v1_converter.go', '''			if r.Key == string(semconv.ServiceNameKey) {
''', '''			if strings.HasPrefix(r.Key, string(semconv.ServiceNameKey)) {
'''), ('otel/jaeger/v1_converter.go', '''	"reflect"
''', '''	"reflect"
	"strings"
'''))
seed('p23-namespace-as-service', 'P23', 'a resource with another attribute of the service before service.name',
     'spans are attributed to the namespace instead of their service', 'otel/jaeger', SEEDS[-1][5],
     ('otel/jaeger/v1_converter.go', '''			if r.Key == string(semconv.ServiceNameKey) {
''', '''			if r.Key == string(semconv.ServiceNameKey) || r.Key == string(semconv.ServiceNamespaceKey) {
'''))
del SEEDS[-2]

seed('p24-lost-base-path', 'P24', 'HASURA_URL with a path (Hasura behind a reverse proxy)',
     'requests go to the root of the host instead of the configured URL', 'infra/hasura', '''
package hasura

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	for _, base := range []string{"", "/", "/hasura", "/a/b"} {
		got := ""
		s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			got = r.URL.Path
			_, _ = w.Write([]byte(`{"data": {}}`))
		}))
		u, err := url.Parse(s.URL + base)
		if err != nil {
			t.Fatal(err)
		}
		want := map[string]string{"": "", "/": ""}[base]
		if len(base) > 1 {
			want = base
		}
		want += "/v1/graphql"
		err = NewClient(&Config{Url: u}).QueryWithoutResult("query {a}", nil)
		s.Close()
		if err != nil {
			t.Fatal(err)
		}
		if got != want {
			t.Errorf("%s: requested %s", base, got)
		}
	}
}
''', ('infra/hasura/client.go', '''	u := *c.baseURL
	u.Path = path.Join(u.Path, pathname)
	return u.String()
''', '''	u := url.URL{Scheme: c.baseURL.Scheme, User: c.baseURL.User, Host: c.baseURL.Host}
	u.Path = path.Clean(pathname)
	return u.String()
'''))

seed('p25-first-come', 'P25', 'more traces than the limit, the slow ones after the limit is reached',
     'traces are picked by order of arrival once the limit is reached', 'lib', '''
package lib

import "testing"

func TestPlantedDemo(t *testing.T) {
	for _, vals := range [][]int{{1, 2, 3, 4, 5}, {5, 4, 3, 2, 1}, {3, 1, 4, 5, 2}, {4, 5, 1, 2, 3}, {1, 5, 4, 2, 3}} {
		h := NewLimitedHeap[int](2, func(a, b int) bool { return a < b })
		for _, v := range vals {
			h.Push(v)
		}
		got := h.PopAll()
		if len(got) != 2 || got[0] != 4 || got[1] != 5 {
			t.Errorf("%v: %v", vals, got)
		}
	}
}
''', ('lib/heap.go', '''	heap.Push(h.h, x)
	if h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
''', '''	if h.h.Len() >= h.limit && h.h.less(x, h.h.vals[h.h.Len()-1]) {
		return
	}
	heap.Push(h.h, x)
	if h.h.Len() > h.limit {
		heap.Pop(h.h)
	}
'''))

seed('p25-leave-by-service', 'P25', 'a service which is called by another service that it was itself called by',
     'the compacted trace is nested wrongly', 'otel/omodel', '''
package omodel

import "testing"

func TestPlantedDemo(t *testing.T) {
	n := byte(0)
	mk := func(service string, children ...*Span) *Span {
		n++
		s := &Span{ServiceName: service, SpanId: []byte{n}, Children: children}
		for _, c := range children {
			c.Parent = s
		}
		return s
	}
	root := mk("a", mk("b", mk("b"), mk("c")), mk("d"))
	c := NewTraceTree(root).Compact().Root
	if len(c.Children) != 2 || len(c.Children[0].Children) != 1 || c.Children[0].Children[0].ServiceName != "c" {
		t.Errorf("wrong shape: %d children", len(c.Children))
	}
}
''', ('otel/omodel/trace_compacter.go', '''	if !c.parentStack.Top().IsSame(span) {
''', '''	if c.parentStack.Top().ServiceName != span.ServiceName {
'''))

seed('p20-map-of-services', 'P20', 'two databases with load in the same hour',
     'the order of databases in the report changes from run to run', 'infra/aws', '''
package aws

import (
	"fmt"
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	start := time.Date(2022, 8, 1, 0, 0, 0, 0, time.UTC)
	seen := map[string]bool{}
	for i := 0; i < 64; i++ {
		var avgs []*PiSQLLoadAvg
		for _, n := range []string{"a", "b", "c", "d"} {
			avg := NewPiSQLLoadAvg(n, "SELECT 1", "x")
			avg.Values = append(avg.Values, &PiTimeValue{Time: start, Value: 1})
			avgs = append(avgs, avg)
		}
		txt := ""
		for _, l := range ConvertPiSQLLoadAvgsToVms(start, start, avgs) {
			for _, d := range l.Databases {
				txt += fmt.Sprint(d.Name, " ")
			}
		}
		seen[txt] = true
	}
	if len(seen) != 1 {
		t.Errorf("%d different reports of the same loads", len(seen))
	}
}
''', ('infra/aws/pi_sql_load_avg.go', '''				dbLoadMap[baseTime][avg.DbName] = dbLoad
				load.Databases = append(load.Databases, dbLoad)
''', '''				dbLoadMap[baseTime][avg.DbName] = dbLoad
'''), ('infra/aws/pi_sql_load_avg.go', '''			load := sqlLoadMap[baseTime]

''', ''), ('infra/aws/pi_sql_load_avg.go', '''	target := lib.NormalizeTimeByHour''', '''	for t, load := range sqlLoadMap {
		for _, dbLoad := range dbLoadMap[t] {
			load.Databases = append(load.Databases, dbLoad)
		}
	}

	target := lib.NormalizeTimeByHour'''))

seed('p16-dsn-in-error', 'P16', 'parameters of DB_PARAM_TEXT which the driver refuses',
     'the password is part of the error that is logged', 'infra/mysql', '''
package mysql

import (
	"fmt"
	"strings"
	"testing"
)

func TestPlantedDemo(t *testing.T) {
	t.Setenv("DB_USERNAME", "root")
	t.Setenv("DB_PASSWORD", "s3cr3t-Word")
	t.Setenv("DB_DATABASE", "app")
	t.Setenv("DB_PARAM_TEXT", "parseTime=perhaps")
	cfg, err := NewConfigFromEnv()
	if err != nil {
		t.Fatal(err)
	}
	_, err = OpenMySQLDB(cfg)
	if err == nil {
		t.Fatal("no error")
	}
	if strings.Contains(fmt.Sprintf("%+v", err), "s3cr3t-Word") {
		t.Error("the password is shown")
	}
}
''', ('infra/mysql/db.go', '''	if err != nil {
		return nil, errors.Wrap(err, "failed to connect")
''', '''	if err != nil {
		return nil, errors.Wrapf(err, "failed to connect with %s", dsn)
'''))
seed('p16-header-of-failed-request', 'P16', 'a server that cannot be reached',
     'the request logged on failure shows the admin secret', 'lib', '''
package lib

import (
	"bytes"
	"errors"
	"net/http"
	"strings"
	"testing"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

type unreachable struct{}

func (unreachable) RoundTrip(*http.Request) (*http.Response, error) {
	return nil, errors.New("connection refused")
}

func TestPlantedDemo(t *testing.T) {
	var buf bytes.Buffer
	old := log.Logger
	log.Logger = zerolog.New(&buf)
	defer func() { log.Logger = old }()
	req, err := http.NewRequest("POST", "http://hasura.invalid/v2/query", nil)
	if err != nil {
		t.Fatal(err)
	}
	req.Header.Add("x-hasura-admin-secret", "s3cr3t-Word")
	if _, err := (&HttpTransport{Transport: unreachable{}}).RoundTrip(req); err == nil {
		t.Fatal("no error")
	}
	if strings.Contains(buf.String(), "s3cr3t-Word") {
		t.Errorf("the secret is logged: %s", buf.String())
	}
}
''', ('lib/http_transport.go', '''	if err != nil {
		log.Printf("[http] <-- ERROR method=%s host=%s path=%s status=error durationMs=%d error=%q", req.Method, req.Host, req.URL.Path, duration, err.Error())
''', '''	if err != nil {
		log.Printf("[http] <-- ERROR method=%s host=%s path=%s header=%v status=error durationMs=%d error=%q", req.Method, req.Host, req.URL.Path, req.Header, duration, err.Error())
'''))
seed('p22-body-of-failure', 'P22', 'answers of Hasura with a status other than 200',
     'the connection of each refused request stays open', 'infra/hasura', '''
package hasura

import (
	"io"
	"net/http"
	"net/url"
	"strings"
	"testing"
)

type body struct {
	io.Reader
	closed bool
}

func (b *body) Close() error {
	b.closed = true
	return nil
}

type answers struct {
	status int
	last   *body
}

func (a *answers) RoundTrip(r *http.Request) (*http.Response, error) {
	a.last = &body{Reader: strings.NewReader(`{"data": {}}`)}
	return &http.Response{StatusCode: a.status, Body: a.last, Header: http.Header{}, Request: r}, nil
}

func TestPlantedDemo(t *testing.T) {
	u, err := url.Parse("http://hasura.invalid")
	if err != nil {
		t.Fatal(err)
	}
	old := http.DefaultClient.Transport
	defer func() { http.DefaultClient.Transport = old }()
	for _, status := range []int{200, 400, 500} {
		a := &answers{status: status}
		http.DefaultClient.Transport = a
		err := NewClient(&Config{Url: u}).QueryWithoutResult("query {a}", nil)
		if (err == nil) != (status == 200) {
			t.Fatal(err)
		}
		if !a.last.closed {
			t.Errorf("status %d: the body is left open", status)
		}
	}
}
''', ('infra/hasura/client.go', '''	defer res.Body.Close()
	if res.StatusCode != 200 {
''', '''	if res.StatusCode != 200 {
'''), ('infra/hasura/client.go', '''	return io.ReadAll(res.Body)
''', '''	defer res.Body.Close()
	return io.ReadAll(res.Body)
'''))
seed('p22-handle-of-failed-run', 'P22', 'a suggestion that fails',
     'the database handle is closed only after a successful suggestion', 'cmd/db/suggest', '''
package suggest

import (
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestPlantedDemo(t *testing.T) {
	t.Setenv("DB_USERNAME", "root")
	t.Setenv("DB_PASSWORD", "x")
	t.Setenv("DB_PROTOCOL", "tcp")
	t.Setenv("DB_ADDRESS", "127.0.0.1:1")
	t.Setenv("DB_DATABASE", "app")
	mr := mysqlRunner{query: "not a query"}
	if err := mr.run(); err == nil {
		t.Fatal("no error")
	}
	for i := 0; ; i++ {
		buf := make([]byte, 1<<20)
		if !strings.Contains(string(buf[:runtime.Stack(buf, true)]), "connectionOpener") {
			return
		}
		if i == 50 {
			t.Fatal("the database handle is left open")
		}
		time.Sleep(20 * time.Millisecond)
	}
}
''', ('cmd/db/suggest/mysql.go', '''	defer db.Close()

	return mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
''', '''	err = mr.suggest(flag.DbFlag.Output, db, cfg.GetDBName())
	if err != nil {
		return err
	}

	return db.Close()
'''))

SCOPEDEMO = '''
package dparser

import (
	"strings"
	"testing"
)

func suggested(t *testing.T, scope *StmtScope) map[string]bool {
	var tables []*TableSchema
	for _, n := range []string{"a", "b", "c"} {
		tables = append(tables, &TableSchema{
			Name:        n,
			Columns:     []*ColumnSchema{{Name: "id"}, {Name: "kind"}, {Name: n + "x"}, {Name: n + "y"}},
			PrimaryKeys: []string{"id"},
		})
	}
	its, err := NewIndexTargetBuilder(tables).Build([]*StmtScope{scope})
	if err != nil {
		t.Fatal(err)
	}
	res := map[string]bool{}
	for _, it := range its {
		var cs []string
		for _, c := range it.Columns {
			cs = append(cs, c.Name)
		}
		res[it.TableName+":"+strings.Join(cs, "+")] = true
	}
	return res
}

func cond(table, name string) *FieldColumn { return &FieldColumn{Table: table, Name: name, Type: FieldCondition} }
func ref(table, name string) *FieldColumn  { return &FieldColumn{Table: table, Name: name, Type: FieldReference} }
'''
BTF = 'database/dservice/dparser/build_table_fields.go'
ITB = 'database/dservice/dparser/index_target_builder.go'
seed('p26-subqueries-beside', 'P26', 'two subqueries in the FROM of a subquery, the second naming a column of the query around which the first one also returns',
     'A subquery in FROM sees the tables beside it though it is not LATERAL when there are several, so a name goes to the wrong table.',
     'database/dservice/dparser', SCOPEDEMO + '''
func TestPlantedDemo(t *testing.T) {
	// SELECT ay FROM a WHERE EXISTS (SELECT 1 FROM (SELECT bx AS ax FROM b) AS s, (SELECT cx FROM c WHERE cy = ax) AS u)
	got := suggested(t, &StmtScope{
		Name:   RootScopeName,
		Tables: []*Table{{Name: "a"}},
		Fields: []*Field{{Columns: []*FieldColumn{ref("", "ay")}}, {Columns: []*FieldColumn{{ReferenceName: "<field0>", Type: FieldSubquery}}}},
		FieldScopes: []*StmtScope{{
			Name:   "<field0>",
			Tables: []*Table{{Name: "<select0>", AsName: "s"}, {Name: "<select1>", AsName: "u"}},
			SubScopes: []*StmtScope{
				{
					Name:   "<select0>",
					Tables: []*Table{{Name: "b"}},
					Fields: []*Field{{AsName: "ax", Columns: []*FieldColumn{ref("", "bx")}}},
				},
				{
					Name:   "<select1>",
					Tables: []*Table{{Name: "c"}},
					Fields: []*Field{{Columns: []*FieldColumn{ref("", "cx")}}, {Columns: []*FieldColumn{cond("", "cy"), cond("", "ax")}}},
				},
			},
		}},
	})
	if !got["a:ax"] || got["b:bx+by"] || !got["c:cy"] {
		t.Errorf("wrong suggestions: %v", got)
	}
}
''', (BTF, '''		if t.IsLateral {
''', '''		if t.IsLateral || len(scope.SubScopes) > 1 {
'''))
seed('p26-value-then-condition', 'P26', 'a column that is selected before it is used as a condition, after two others of its table',
     'A column which is referred to as a value first stays one if it is not among the first two of its table.',
     'database/dservice/dparser', SCOPEDEMO + '''
func TestPlantedDemo(t *testing.T) {
	got := suggested(t, &StmtScope{
		Name:   RootScopeName,
		Tables: []*Table{{Name: "a"}, {Name: "b"}},
		Fields: []*Field{{Columns: []*FieldColumn{ref("a", "kind")}}, {Columns: []*FieldColumn{ref("b", "kind")}}, {Columns: []*FieldColumn{cond("a", "kind"), cond("b", "kind")}}},
	})
	if !got["a:kind"] || !got["b:kind"] {
		t.Errorf("wrong suggestions: %v", got)
	}
	got = suggested(t, &StmtScope{
		Name:   RootScopeName,
		Tables: []*Table{{Name: "a"}},
		Fields: []*Field{{Columns: []*FieldColumn{ref("a", "id"), ref("a", "kind"), ref("a", "ax")}}, {Columns: []*FieldColumn{cond("a", "ax")}}},
	})
	if !got["a:ax"] {
		t.Errorf("wrong suggestions: %v", got)
	}
}
''', (BTF, '''			if c.Type == FieldReference && col.Type == FieldCondition {
				si.referencingFields[tableName][i] = col
			}
			return
''', '''			if c.Type == FieldReference && col.Type == FieldCondition && i < 2 {
				si.referencingFields[tableName][i] = col
			}
			return
'''))
seed('p26-first-key-column', 'P26', 'a candidate of more than three columns which begins with one of the primary key',
     'Candidates are left out when their first column is of the primary key, whatever follows.',
     'database/dservice/dparser', SCOPEDEMO + '''
func TestPlantedDemo(t *testing.T) {
	got := suggested(t, &StmtScope{
		Name:   RootScopeName,
		Tables: []*Table{{Name: "a"}},
		Fields: []*Field{{Columns: []*FieldColumn{cond("a", "id"), cond("a", "kind"), cond("a", "ax"), cond("a", "ay")}}},
	})
	if !got["a:id+kind"] || !got["a:id+ax+kind+ay"] || got["a:id"] {
		t.Errorf("wrong suggestions: %v", got)
	}
}
''', (ITB, '''			if !pks.Contains(f.Name) {
				isAllPk = false
				break
			}
''', '''			if len(fs) > 3 && pks.Contains(f.Name) {
				break
			}
			if !pks.Contains(f.Name) {
				isAllPk = false
				break
			}
'''))

# ---- P27
HASURADEMO = '''
package hasura

import (
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

// runHasura runs the command against a server; returns the explain request and whether the catalog was asked.
func runHasura(t *testing.T, answers int, args ...string) (body map[string]interface{}, asked bool, err error) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		b, _ := io.ReadAll(req.Body)
		if strings.HasSuffix(req.URL.Path, "/explain") {
			_ = json.Unmarshal(b, &body)
			one := `{"field": "tasks", "sql": "SELECT 1", "plan": ["Result  (cost=0.00..0.01 rows=1 width=4)"]}`
			_, _ = w.Write([]byte("[" + strings.Join(strings.Split(strings.Repeat(one+"#", answers), "#")[:answers], ",") + "]"))
			return
		}
		asked = true
		_, _ = w.Write([]byte(`{"result_type": "TuplesOk", "result": [["table_name", "column_name", "is_pk"]]}`))
	}))
	defer srv.Close()
	t.Setenv("HASURA_URL", srv.URL)
	t.Setenv("HASURA_ADMIN_SECRET", "x")
	PostgresCmd.SetArgs(args)
	PostgresCmd.SilenceErrors, PostgresCmd.SilenceUsage = true, true
	err = PostgresCmd.Execute()
	return
}
'''
seed('p27-null-variables', 'P27', 'a variable given as null',
     'Variables given as null are not sent, so that defaults of the GraphQL query take their place in what is explained and measured.',
     'cmd/db/suggest/hasura', HASURADEMO + '''
func TestPlantedDemo(t *testing.T) {
	body, _, _ := runHasura(t, 1, "-q", "query q($a: Int = 5, $b: Int) { tasks { id } }", "--json-variables", `{"a": null, "b": 2}`)
	q, _ := body["query"].(map[string]interface{})
	vs, _ := q["variables"].(map[string]interface{})
	if _, ok := vs["a"]; !ok || vs["b"] != float64(2) || len(vs) != 2 {
		t.Errorf("wrong variables: %v", body)
	}
}
''', (HSC, '''	return variables, nil
''', '''	return lo.PickBy(variables, func(_ string, v interface{}) bool { return v != nil }), nil
'''))
seed('p27-several-sqls', 'P27', 'a GraphQL query run as several SQLs',
     'Of a GraphQL query run as several SQLs only the first is looked at, as if it were all.',
     'cmd/db/suggest/hasura', HASURADEMO + '''
func TestPlantedDemo(t *testing.T) {
	for n := 2; n < 5; n++ {
		if _, _, err := runHasura(t, n, "-q", "{ tasks { id } users { id } }"); err == nil || !strings.Contains(err.Error(), "multiple") {
			t.Errorf("%d SQLs: %v", n, err)
		}
	}
}
''', (HSC, '''	if len(res) != 1 {
''', '''	if len(res) == 0 || len(res) > 2 && res[0].SQL != res[1].SQL {
'''))
seed('p27-one-line', 'P27', 'a query with a comment that ends with its line',
     'The query is put on one line before indexes are searched, so that what follows a -- comment gets lost.',
     'database/mysql/mservice', '''
package mservice

import (
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/mrasu/GravityR/infra/mysql"
	"github.com/mrasu/GravityR/thelper"
)

func TestPlantedDemo(t *testing.T) {
	thelper.MockMysqlDB(t, func(db *mysql.DB, mock sqlmock.Sqlmock) {
		mock.ExpectQuery("(?is)information_schema.+columns").WithArgs("d", "tasks").
			WillReturnRows(sqlmock.NewRows([]string{"COLUMN_KEY", "TABLE_NAME", "COLUMN_NAME"}).
				AddRow("PRI", "tasks", "id").AddRow("", "tasks", "status").AddRow("", "tasks", "user_id"))
		mock.ExpectQuery("(?is)information_schema.+statistics").
			WillReturnRows(sqlmock.NewRows([]string{"TABLE_NAME", "INDEX_NAME", "COLUMN_NAME"}))
		its, err := NewIndexSuggester(db, "d").Suggest("SELECT id -- the key\\nFROM tasks\\nWHERE status = 1 -- open\\n  AND user_id = 2")
		if err != nil {
			t.Fatal(err)
		}
		if len(its) < 4 {
			t.Errorf("too few suggestions: %v", its)
		}
	})
}
''', ('database/mysql/mservice/index_suggester.go', '''	rootNode, err := Parse(p, query)
''', '''	rootNode, err := Parse(p, strings.ReplaceAll(query, "\\n", " "))
'''), ('database/mysql/mservice/index_suggester.go', '''	tParser "github.com/pingcap/tidb/parser"
''', '''	tParser "github.com/pingcap/tidb/parser"
	"strings"
'''))
seed('p27-short-statement', 'P27', 'a long query',
     'Long queries are cut before they are explained.',
     'infra/postgres', '''
package postgres

import (
	"strings"
	"testing"

	"github.com/DATA-DOG/go-sqlmock"
	"github.com/jmoiron/sqlx"
)

func TestPlantedDemo(t *testing.T) {
	for _, n := range []int{10, 5000, 100000} {
		db, mock, err := sqlmock.New(sqlmock.QueryMatcherOption(sqlmock.QueryMatcherEqual))
		if err != nil {
			t.Fatal(err)
		}
		q := "SELECT * FROM t WHERE a IN (" + strings.Repeat("1, ", n) + "2) AND b = 1"
		mock.ExpectQuery("EXPLAIN (ANALYZE, BUFFERS) " + q).WillReturnRows(sqlmock.NewRows([]string{"QUERY PLAN"}).AddRow("x"))
		if _, err := NewDB(sqlx.NewDb(db, "sqlmock")).ExplainWithAnalyze(q); err != nil {
			t.Errorf("%d: %.80s", n, err)
		}
	}
}
''', ('infra/postgres/db.go', '''	err := db.db.Select(&res, "EXPLAIN (ANALYZE, BUFFERS) "+query)
''', '''	err := db.db.Select(&res, fmt.Sprintf("EXPLAIN (ANALYZE, BUFFERS) %.65535s", query))
'''))
