package jobs_test

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
	"github.com/DataDog/orchestrion/internal/jobserver"
	"github.com/DataDog/orchestrion/internal/jobserver/client"
	"github.com/DataDog/orchestrion/internal/jobserver/common"
	"github.com/DataDog/orchestrion/internal/zzverif/vh"
	"github.com/nats-io/nats.go"
	"pgregory.net/rapid"
)

type gen struct{ t *rapid.T }

func (g *gen) n(n int) int {
	return int(rapid.Uint64().Draw(g.t, "r")*0x9E3779B97F4A7C15>>11) % n
}
func (g *gen) pct(p int) bool { return g.n(100) < p }

const limit = 30 * time.Second // nothing here takes more than a few seconds

// job is a request to a service of the test.
type job struct {
	Service string
	ID      int
	Text    string
	Fails   bool
	Message string        // of the failure
	Delay   time.Duration // before the answer
	After   int           // answers only once this other one is being processed
	Size    int           // of the answer
	Stuck   bool          // is not answered until the end
}

type answer struct {
	ID   int
	Text string
	Pad  string
	List map[string][]int `json:"error"` // as misleading a name as can be
}

func (j job) Subject() string                      { return j.Service }
func (job) ResponseIs(*answer)                     {}
func (j job) ForeachSpanTag(set func(string, any)) { set("id", j.ID) }

func (j job) answer() *answer {
	pad := "<" // written as six
	if j.Size > 1<<20 {
		pad = "-"
	}
	return &answer{ID: j.ID, Text: j.Text, Pad: strings.Repeat(pad, j.Size), List: map[string][]int{j.Text: {j.ID, len(j.Text)}}}
}

type quiet struct{}

func (quiet) Log(string) {}

func (g *gen) text() string {
	switch g.n(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(string(rune('a'+g.n(26))), g.n(20_000))
	case 2:
		return []string{`{"error":"no"}`, `null`, "\x00", "\u2028\u2029", `<a href="x">&`, "\\\"", "é世\U0001F600", "a\nb\tc\r\n"}[g.n(8)]
	}
	return strings.ToValidUTF8(rapid.String().Draw(g.t, "text"), "?")
}

// TestC35_Replies sends requests at the same time and checks what is answered.
func TestC35_Replies(t *testing.T) {
	for _, v := range []string{"DD_INSTRUMENTATION_TELEMETRY_ENABLED", "DD_REMOTE_CONFIGURATION_ENABLED", "DD_TRACE_STARTUP_LOGS"} {
		os.Setenv(v, "false")
	}
	vh.Must(tracer.Start(tracer.WithLogger(quiet{}), tracer.WithLogStartup(false), tracer.WithAgentAddr("127.0.0.1:1")))
	defer tracer.Stop()
	ctx := context.Background()
	srv, err := jobserver.New(ctx, &jobserver.Options{})
	vh.Must(err)
	defer srv.Shutdown()
	services, err := nats.Connect(srv.ClientURL(), nats.UserInfo(client.Username, client.NoPassword))
	vh.Must(err)
	defer services.Close()
	cases := 0

	vh.Run(t, vh.Opts{
		Rule:  "1 to 6 clients (over the network and within the process) send 1 to 24 requests at the same time to a service which answers, fails, answers late, or only once another request is being processed; some clients give up, some send garbage, some answers are large; every request must get its own answer; non-trivial: at least 2 requests at once",
		Quick: 160, Thorough: 2500,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		cases++
		service := "verif." + strconv.Itoa(cases)
		var jobs []job
		clients := 1 + g.n(6)
		num := 1 + g.n(24)
		huge := g.pct(2)
		for i := range num {
			j := job{Service: service, ID: i, Text: g.text(), After: -1}
			switch g.n(8) {
			case 0:
				j.Fails, j.Message = true, g.text()
			case 1:
				j.Delay = time.Duration(g.n(20)) * time.Millisecond
			case 2:
				if i+1 < num {
					j.After = i + 1 + g.n(num-i-1)
				}
			case 3:
				j.Size = g.n(200_000)
			case 4:
				j.Stuck = g.pct(40)
			case 5:
				if huge {
					j.Size, huge = 65<<20, false // more than what messages can be
				}
			}
			jobs = append(jobs, j)
		}
		garbage := ""
		if g.pct(40) {
			garbage = []string{"", "{", `{"ID": "x"}`, "[]", "7", `"text"`, "\xff", `{"ID": 1e99}`, `{"Text": "a"`}[g.n(9)]
			if garbage == "" {
				garbage = " "
			}
		}
		subject := []string{service, "packages.resolve", "packages.load", "never-build-twice.start", "never-build-twice.finish"}[g.n(5)]
		if subject != service && strings.HasPrefix(garbage, "{\"") {
			garbage = "{" // other fields are not wrong
		}
		c.Desc(map[string]any{"clients": clients, "jobs": shorten(jobs), "garbage": garbage, "to": subject})
		if num > 1 {
			c.Nontrivial(fmt.Sprint(clients, num, jobs[0].Text, jobs[num-1].Text, garbage))
		}

		// The service.
		type mark struct{}
		base := context.WithValue(ctx, mark{}, service)
		started := make([]chan struct{}, num)
		var once = make([]sync.Once, num)
		for i := range started {
			started[i] = make(chan struct{})
		}
		end := make(chan struct{})
		defer close(end)
		var mu sync.Mutex
		var wrong []string
		report := func(format string, args ...any) {
			mu.Lock()
			defer mu.Unlock()
			wrong = append(wrong, fmt.Sprintf(format, args...))
		}
		sub, err := services.Subscribe(service, common.HandleRequest(base, func(ctx context.Context, j job) (*answer, error) {
			if ctx.Value(mark{}) != service {
				report("the handler has another context than the one of its service")
			}
			if j.ID < 0 || j.ID >= num || j.Text != jobs[j.ID].Text {
				report("the handler is called with %+v, which nobody sent", shorten([]job{j}))
				return nil, errors.New("unknown")
			}
			once[j.ID].Do(func() { close(started[j.ID]) })
			time.Sleep(j.Delay)
			if j.After >= 0 {
				select {
				case <-started[j.After]:
				case <-end:
				}
			}
			if j.Stuck {
				<-end
			}
			if j.Fails {
				return j.answer(), errors.New(j.Message)
			}
			return j.answer(), nil
		}))
		vh.Must(err)
		defer sub.Unsubscribe()
		vh.Must(services.Flush())

		// The clients.
		conns := make([]*client.Client, clients)
		for i := range conns {
			if i%2 == 0 {
				conns[i], err = client.Connect(srv.ClientURL())
			} else {
				conns[i], err = srv.Connect()
			}
			if err != nil {
				c.Violation("a client cannot connect: %v", err)
			}
			defer conns[i].Close()
		}
		var wg sync.WaitGroup
		for i, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				patience := limit
				if j.Stuck {
					patience = 50 * time.Millisecond
				}
				ctx, cancel := context.WithTimeout(ctx, patience)
				defer cancel()
				begin := time.Now()
				got, err := client.Request(ctx, conns[i%clients], j)
				switch want := j.answer(); {
				case j.Stuck:
					if !errors.Is(err, context.DeadlineExceeded) || time.Since(begin) > limit/2 {
						report("request %d: gave up after %v, and got %v after %v", i, patience, err, time.Since(begin))
					}
				case err != nil && errors.Is(err, context.DeadlineExceeded):
					report("request %d got no answer in %v", i, patience)
				case j.Fails:
					if err == nil {
						report("request %d succeeded, expected the error %q", i, j.Message)
					} else if err.Error() != j.Message {
						report("request %d failed with %.200q, expected %.200q", i, err.Error(), j.Message)
					}
				case j.Size > 64<<20:
					if err == nil {
						report("request %d got an answer of impossible size", i)
					}
				case err != nil:
					report("request %d failed: %v", i, err)
				case got == nil || got.ID != want.ID || got.Text != want.Text || got.Pad != want.Pad || len(got.List) != 1 || fmt.Sprint(got.List) != fmt.Sprint(want.List):
					report("request %d got the answer %.300v, expected %.300v", i, got, want)
				}
			}()
		}
		if garbage != "" {
			wg.Add(1)
			go func() {
				defer wg.Done()
				other, err := nats.Connect(srv.ClientURL(), nats.UserInfo(client.Username, client.NoPassword))
				if err != nil {
					report("a client cannot connect: %v", err)
					return
				}
				defer other.Close()
				resp, err := other.Request(subject, []byte(garbage), limit)
				if err != nil {
					report("%q sent to %s is not answered: %v", garbage, subject, err)
				} else if res, err := common.UnmarshalResponse[json.RawMessage](ctx, resp.Data); err == nil {
					report("%q sent to %s is answered by %s", garbage, subject, res)
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		defer mu.Unlock()
		if len(wrong) > 0 {
			c.Violation("%s", strings.Join(wrong, "\n"))
		}
	})
}

// shorten leaves the essence of requests.
func shorten(jobs []job) (res []string) {
	for _, j := range jobs {
		s := fmt.Sprintf("%d: %.40q", j.ID, j.Text)
		switch {
		case j.Fails:
			s += fmt.Sprintf(" fails: %.40q", j.Message)
		case j.Stuck:
			s += " stuck"
		case j.After >= 0:
			s += fmt.Sprintf(" after %d", j.After)
		case j.Delay > 0:
			s += fmt.Sprintf(" in %v", j.Delay)
		case j.Size > 0:
			s += fmt.Sprintf(" size %d", j.Size)
		}
		res = append(res, s)
	}
	return res
}

// TestC35_Connections is about clients that are ahead of their server.
func TestC35_Connections(t *testing.T) {
	vh.Run(t, vh.Opts{
		Rule:  "1 to 5 clients connect to a port on which a server listens only some time later; all must be served; non-trivial: the server is late",
		Quick: 25, Thorough: 150,
	}, func(c *vh.Case) {
		g := &gen{c.T}
		// A port that connections to others do not use.
		var addr string
		var port int
		for try := 0; addr == ""; try++ {
			port = 21000 + (g.n(10_000)+try)%10_000
			if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
				addr = l.Addr().String()
				vh.Must(l.Close())
			} else if try > 100 {
				vh.Must(err)
			}
		}
		late := g.n(500) - 100
		num := 1 + g.n(5)
		c.Desc(map[string]any{"clients": num, "late": late})
		start := func() *jobserver.Server {
			var err error
			for range 5 {
				var srv *jobserver.Server
				if srv, err = jobserver.New(context.Background(), &jobserver.Options{Port: port}); err == nil {
					return srv
				}
				time.Sleep(100 * time.Millisecond)
			}
			vh.Must(err)
			return nil
		}
		var srv *jobserver.Server
		if late <= 0 {
			srv = start()
		} else {
			c.Nontrivial(fmt.Sprint(late, num))
		}
		errs := make(chan error, num)
		ready := make(chan struct{})
		for range num {
			go func() {
				conn, err := client.Connect("nats://" + addr)
				if err == nil {
					<-ready // the services are there once the server is
					_, err = client.Request(context.Background(), conn, garbageRequest{})
					if err != nil && strings.Contains(err.Error(), "cannot unmarshal") {
						err = nil
					} else {
						err = fmt.Errorf("a request of the wrong type got %w", err)
					}
					conn.Close()
				}
				errs <- err
			}()
		}
		if srv == nil {
			time.Sleep(time.Duration(late) * time.Millisecond)
			srv = start()
		}
		defer srv.Shutdown()
		close(ready)
		var wrong []string
		for range num {
			select {
			case err := <-errs:
				if err != nil {
					wrong = append(wrong, err.Error())
				}
			case <-time.After(limit):
				wrong = append(wrong, "no answer")
			}
		}
		if len(wrong) > 0 {
			c.Violation("of %d clients of a server that is %d ms late: %s", num, late, strings.Join(wrong, "; "))
		}
	})
}

type garbageRequest struct{}

func (garbageRequest) Subject() string                  { return "packages.resolve" }
func (garbageRequest) ResponseIs(string)                {}
func (garbageRequest) ForeachSpanTag(func(string, any)) {}
func (garbageRequest) MarshalJSON() ([]byte, error)     { return []byte(`[1]`), nil }
