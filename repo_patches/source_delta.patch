From 28c30f125e3607707adefc0a510d99521e1a32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 01/46] fix: decode JSON times outside the nanosecond range

Multiplying milliseconds by time.Millisecond overflows int64 for instants
before 1678 and after 2262, so e.g. the zero time came back as 1754-08-30.
---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 3fc8fa6966d7093f28d1a0e5e2392ad7353b78e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 02/46] fix: fill HTTPError.Body

The exported field was never set, callers only saw the body inside the text.
---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From 2340a23a9e31bc7b12b50e49391f335e6a342f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 03/46] fix: observe seconds in the gorpc time_seconds metric

The metric is named and described as seconds but observed nanoseconds.
---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..1607c3d 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -46,6 +46,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	p.MustRegister(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From 9b2573e6d2b61e1480428f7ea24ecebe17421497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 04/46] fix: keep the service's errors for stats and monitor

For msgpack callers Reply replaced errors by their transport form in place, so
Monitor and CallStats saw *gotsrpc.Error instead of what the service returned
and lost its ErrorCode().
---
 gotsrpc.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..1080247 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -95,15 +95,19 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	// transform a copy, the original values are still needed for stats and monitoring
+	encoded := make([]interface{}, len(response))
+	copy(encoded, response)
+
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if err := clientHandle.beforeEncodeReply(&encoded); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encoded); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
-- 
2.43.0


From 47da710a7ad084dc964e9600312a889d410cdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 05/46] fix: let errors.Is find errors which wrap a cause

Msg holds the text without the cause, so comparing it to the full text of the
target never matched for wrapping sentinels.
---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 3e7b33a..3ac95f5 100644
--- a/error.go
+++ b/error.go
@@ -115,7 +115,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if (e.Msg == err.Error() || e.Error() == err.Error()) &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
-- 
2.43.0


From b6d62159e2d3df56fd06462000d0abaedd2fd4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 06/46] fix: do not append the cause to error texts which do
 not end with it

Texts like "failed (cause) again" or of transparent wrappers came out with the
cause repeated at the end.
---
 error.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/error.go b/error.go
index 3ac95f5..bc9814e 100644
--- a/error.go
+++ b/error.go
@@ -16,6 +16,7 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	Complete bool        `json:"f,omitempty"` // Msg already contains the text of the cause
 }
 
 // NewError returns a new instance
@@ -49,7 +50,11 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if suffix := ": " + unwrappedErr.Error(); strings.HasSuffix(inst.Msg, suffix) {
+			inst.Msg = strings.TrimSuffix(inst.Msg, suffix)
+		} else {
+			inst.Complete = true
+		}
 	}
 
 	return inst
@@ -127,7 +132,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.Complete {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From b63de18a1ea28556baf751992f48596a5c209b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 07/46] fix: keep the reply's headers when a handler writes
 status 200

---
 responsewriter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..dd1f0ac 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -13,7 +13,10 @@ type ResponseWriter struct {
 func (r *ResponseWriter) WriteHeader(status int) {
 	r.status = status
 	r.wroteHeader = true
-	r.ResponseWriter.WriteHeader(status)
+	// a plain 200 goes out with the reply, which still has to set its headers
+	if status != http.StatusOK {
+		r.ResponseWriter.WriteHeader(status)
+	}
 }
 
 func (r *ResponseWriter) Status() int {
-- 
2.43.0


From d64fd20cce45b63f294ca01d95aca4fdec2e21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 08/46] fix: exit with an error when a mapping's file can not
 be written

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index efcf0f7..a1b5607 100644
--- a/build.go
+++ b/build.go
@@ -269,6 +269,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(7)
 		}
 	}
 }
-- 
2.43.0


From 248f33dca1bb7522c0e7141bd9155bf02e50ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:38 +0000
Subject: [PATCH 09/46] fix: remove all stale Go outputs before reading the
 first target

---
 build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/build.go b/build.go
index a1b5607..241fbeb 100644
--- a/build.go
+++ b/build.go
@@ -89,6 +89,15 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
+	// an interrupted run may have left broken files, which must not be read
+	// when another target refers to their package
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		for _, base := range []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"} {
+			os.Remove(path.Join(outputPath, base))
+		}
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
-- 
2.43.0


From c96b87e95cf1d86724672f66066001cee4bccfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:26 +0000
Subject: [PATCH 10/46] fix: let errors.Is and errors.As find joined errors

---
 error.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/error.go b/error.go
index bc9814e..590ffdc 100644
--- a/error.go
+++ b/error.go
@@ -17,6 +17,7 @@ type Error struct {
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
 	Complete bool        `json:"f,omitempty"` // Msg already contains the text of the cause
+	Joined   []*Error    `json:"j,omitempty"` // errors of a joined error, Msg already contains their texts
 }
 
 // NewError returns a new instance
@@ -57,6 +58,15 @@ func NewError(err error) *Error {
 		}
 	}
 
+	// keep joined errors
+	if joined, ok := err.(interface{ Unwrap() []error }); ok { //nolint:errorlint
+		for _, joinedErr := range joined.Unwrap() {
+			if joinedErr != nil {
+				inst.Joined = append(inst.Joined, NewError(joinedErr))
+			}
+		}
+	}
+
 	return inst
 }
 
@@ -73,6 +83,11 @@ func (e *Error) As(err interface{}) bool {
 			return true
 		}
 	}
+	for _, joined := range e.Joined {
+		if errors.As(joined, err) {
+			return true
+		}
+	}
 	return false
 }
 
@@ -126,6 +141,12 @@ func (e *Error) Is(err error) bool {
 		return true
 	}
 
+	for _, joined := range e.Joined {
+		if errors.Is(joined, err) {
+			return true
+		}
+	}
+
 	return false
 }
 
-- 
2.43.0


From 77c64e58e3757516517dddda9a1011da3122a50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:55 +0000
Subject: [PATCH 11/46] fix: transport errors which are zero values

---
 error.go     | 10 ++++++++++
 gotsrpc.go   |  3 +--
 transport.go |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index 590ffdc..c5618e3 100644
--- a/error.go
+++ b/error.go
@@ -70,6 +70,16 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// isNilError tells if a non nil interface holds a nil, other zero values are errors
+func isNilError(err error) bool {
+	switch v := reflect.ValueOf(err); v.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	default:
+		return false
+	}
+}
+
 // As interface
 func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
diff --git a/gotsrpc.go b/gotsrpc.go
index 1080247..3b203a4 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -12,7 +12,6 @@ import (
 	"os"
 	"path"
 	"path/filepath"
-	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -124,7 +123,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 		if len(response) > 0 {
 			errResp := response[len(response)-1]
 			if v, ok := errResp.(error); ok && v != nil {
-				if !reflect.ValueOf(v).IsZero() {
+				if !isNilError(v) {
 					stats.ErrorCode = 1
 					stats.ErrorType = fmt.Sprintf("%T", v)
 					stats.ErrorMessage = v.Error()
diff --git a/transport.go b/transport.go
index 8ea7d95..2b9a13e 100644
--- a/transport.go
+++ b/transport.go
@@ -33,7 +33,7 @@ var msgpackClientHandle = &clientHandle{
 	beforeEncodeReply: func(resp *[]interface{}) error {
 		for k, v := range *resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
+				if !isNilError(e) {
 					(*resp)[k] = NewError(e)
 				}
 			}
-- 
2.43.0


From 09e20532e964b77b3588ba424383e4cd430bb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:55 +0000
Subject: [PATCH 12/46] fix: restore typed errors with the names and formats
 they were sent with

---
 error.go     | 20 +++++++++++++++++++-
 transport.go |  4 ++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index c5618e3..b4c1787 100644
--- a/error.go
+++ b/error.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
+	"github.com/ugorji/go/codec"
 )
 
 type Error struct {
@@ -70,6 +71,23 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// errorDataHandle is the handle errors are transported with
+var errorDataHandle codec.Handle
+
+// decodeErrorData restores the data of an error into the value result points to
+func decodeErrorData(data, result interface{}) error {
+	// never transported, still the error itself
+	if _, ok := data.(error); ok {
+		return mapstructure.Decode(data, result)
+	}
+	// transported data has the field names and formats of the encoding
+	var b []byte
+	if err := codec.NewEncoderBytes(&b, errorDataHandle).Encode(data); err != nil {
+		return err
+	}
+	return codec.NewDecoderBytes(b, errorDataHandle).Decode(result)
+}
+
 // isNilError tells if a non nil interface holds a nil, other zero values are errors
 func isNilError(err error) bool {
 	switch v := reflect.ValueOf(err); v.Kind() {
@@ -86,7 +104,7 @@ func (e *Error) As(err interface{}) bool {
 		return false
 	}
 	if reflect.TypeOf(err).Elem().String() == e.Type {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
diff --git a/transport.go b/transport.go
index 2b9a13e..263e1d9 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -61,7 +60,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
@@ -77,6 +76,7 @@ func init() {
 	// attempting to set promoted field in literal will cause a compiler error
 	mh.RawToString = true
 	msgpackClientHandle.handle = mh
+	errorDataHandle = mh
 	// WriteExt is not being called
 	// if err := SetJSONExt(time.Time{}, 2, timeExt); err != nil {
 	// 	 panic(err)
-- 
2.43.0


From 8d584682af03e995604d8c6e3a20e9b7eb9bb07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 13/46] fix: keep the first error status a handler writes

---
 responsewriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/responsewriter.go b/responsewriter.go
index dd1f0ac..d5e48aa 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,6 +11,11 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
+	// the first status other than 200 went out, further ones do not change it
+	if r.wroteHeader && r.status != http.StatusOK {
+		r.ResponseWriter.WriteHeader(status)
+		return
+	}
 	r.status = status
 	r.wroteHeader = true
 	// a plain 200 goes out with the reply, which still has to set its headers
-- 
2.43.0


From c17d15c78830f13f09d7df163f7d7c318a7eb4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:49 +0000
Subject: [PATCH 14/46] fix: reply to calls whose handler sent an informational
 status

---
 responsewriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/responsewriter.go b/responsewriter.go
index d5e48aa..ebf57d6 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,6 +11,11 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
+	// informational statuses are followed by the actual one
+	if status >= http.StatusContinue && status < http.StatusOK && status != http.StatusSwitchingProtocols {
+		r.ResponseWriter.WriteHeader(status)
+		return
+	}
 	// the first status other than 200 went out, further ones do not change it
 	if r.wroteHeader && r.status != http.StatusOK {
 		r.ResponseWriter.WriteHeader(status)
-- 
2.43.0


From eeb9c8d5d5b222457205b425c9ffb9afef2922cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:52 +0000
Subject: [PATCH 15/46] fix: count the bytes of requests of unannounced size

---
 gotsrpc.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 3b203a4..576975b 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -8,6 +8,7 @@ import (
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"io"
 	"net/http"
 	"os"
 	"path"
@@ -51,17 +52,33 @@ func LoadArgs(args interface{}, callStats *CallStats, r *http.Request) error {
 	start := time.Now()
 
 	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle
-	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
+	body := &countingReader{r: r.Body}
+	if errDecode := codec.NewDecoder(body, handle).Decode(args); errDecode != nil {
 		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
 		return errors.Wrap(errDecode, "could not decode arguments")
 	}
 	if callStats != nil {
 		callStats.Unmarshalling = time.Since(start)
 		callStats.RequestSize = int(r.ContentLength)
+		if r.ContentLength < 0 {
+			// chunked, the size was not announced
+			callStats.RequestSize = body.n
+		}
 	}
 	return nil
 }
 
+type countingReader struct {
+	r io.Reader
+	n int
+}
+
+func (c *countingReader) Read(p []byte) (int, error) {
+	n, err := c.r.Read(p)
+	c.n += n
+	return n, err
+}
+
 func loadArgs(args interface{}, jsonBytes []byte) error {
 	if err := json.Unmarshal(jsonBytes, &args); err != nil {
 		return err
-- 
2.43.0


From 74607b24985d69da0e1462837fa0c15c6d250991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:46 +0000
Subject: [PATCH 16/46] fix: tell errors of same named types of different
 packages apart in As

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index b4c1787..3bd86d3 100644
--- a/error.go
+++ b/error.go
@@ -103,7 +103,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From de3c78ddb2626b335a85f4b2905f98ef1510c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:16 +0000
Subject: [PATCH 17/46] fix: send times passed or returned directly as JSON the
 way times in structs are sent

---
 client.go    |  3 +++
 transport.go | 28 ++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 67ee8bf..86f51a7 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,9 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
+		if c.handle.beforeEncodeArgs != nil {
+			args = c.handle.beforeEncodeArgs(args)
+		}
 		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
diff --git a/transport.go b/transport.go
index 263e1d9..01e3fb3 100644
--- a/transport.go
+++ b/transport.go
@@ -20,6 +20,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func([]interface{}) []interface{}
 	beforeEncodeReply func(*[]interface{}) error
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -92,8 +93,31 @@ func init() {
 }
 
 var jsonClientHandle = &clientHandle{
-	handle:      &codec.JsonHandle{},
-	contentType: "application/json; charset=utf-8",
+	handle:           &codec.JsonHandle{},
+	contentType:      "application/json; charset=utf-8",
+	beforeEncodeArgs: convertTimes,
+	beforeEncodeReply: func(resp *[]interface{}) error {
+		*resp = convertTimes(*resp)
+		return nil
+	},
+}
+
+// convertTimes applies the time extension to times the codec would not apply it to
+func convertTimes(values []interface{}) []interface{} {
+	ret := make([]interface{}, len(values))
+	for k, v := range values {
+		switch t := v.(type) {
+		case time.Time:
+			ret[k] = timeExt.ConvertExt(&t)
+		case *time.Time:
+			if t != nil {
+				ret[k] = timeExt.ConvertExt(t)
+			}
+		default:
+			ret[k] = v
+		}
+	}
+	return ret
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From 54cc5e271870e14f1d6c864f5927239651ea5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 18/46] fix: give the monitor the arguments the service
 received when fewer, more or null values were sent

---
 gotsrpc.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 576975b..26acab0 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -53,7 +53,14 @@ func LoadArgs(args interface{}, callStats *CallStats, r *http.Request) error {
 
 	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle
 	body := &countingReader{r: r.Body}
-	if errDecode := codec.NewDecoder(body, handle).Decode(args); errDecode != nil {
+	dst := args
+	if list, ok := args.(*[]interface{}); ok {
+		// the values are filled in place, but their list takes on the length
+		// and the nulls of what was sent
+		sent := append([]interface{}{}, *list...)
+		dst = &sent
+	}
+	if errDecode := codec.NewDecoder(body, handle).Decode(dst); errDecode != nil {
 		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
 		return errors.Wrap(errDecode, "could not decode arguments")
 	}
-- 
2.43.0


From 232fec93d96392cce6fab7c140d40cc9ebb36b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 19/46] fix: write mapped packages in a fixed order

---
 build.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 241fbeb..1f6f1df 100644
--- a/build.go
+++ b/build.go
@@ -243,7 +243,14 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		}
 	}
 
-	for goPackage, mappedStructsMap := range mappedTypeScript {
+	// packages may share a file
+	mappedPackages := make([]string, 0, len(mappedTypeScript))
+	for goPackage := range mappedTypeScript {
+		mappedPackages = append(mappedPackages, goPackage)
+	}
+	sort.Strings(mappedPackages)
+	for _, goPackage := range mappedPackages {
+		mappedStructsMap := mappedTypeScript[goPackage]
 		mapping, ok := conf.Mappings[goPackage]
 		if !ok {
 			_, _ = fmt.Fprintln(os.Stderr, "reverse mapping error in struct generation for package", goPackage)
-- 
2.43.0


From e1458935cfa5504f476d5dba2e87a8c0a7a6b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 20/46] fix: quote property names which are no TypeScript
 identifiers

---
 typescript.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..019162f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -3,7 +3,9 @@ package gotsrpc
 import (
 	"errors"
 	"go/ast"
+	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -19,6 +21,16 @@ func (f *Field) tsName() string {
 	return n
 }
 
+var tsIdentifier = regexp.MustCompile(`^[\pL_$][\pL\d_$]*$`)
+
+// tsPropertyName quotes names which are no identifiers
+func tsPropertyName(name string) string {
+	if tsIdentifier.MatchString(name) {
+		return name
+	}
+	return strconv.Quote(name)
+}
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -121,7 +133,7 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
 		}
-		ts.app(f.tsName())
+		ts.app(tsPropertyName(f.tsName()))
 		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
 			ts.app("?")
 		}
-- 
2.43.0


From 79c46acdcf5c382591b2f3cf51a32adb69d2024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 21/46] fix: declare []uint8 and named byte slices as strings,
 single bytes as numbers

---
 typescript.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/typescript.go b/typescript.go
index 019162f..b48496b 100644
--- a/typescript.go
+++ b/typescript.go
@@ -53,13 +53,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -116,10 +110,23 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	// bytes are encoded as a base64 string
+	if a.Value.GoScalarType == "byte" || a.Value.GoScalarType == "uint8" {
+		if !a.Value.IsPtr {
+			ts.app("string")
+			return
+		}
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -148,9 +155,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 6a3ab88c086fe40cb968bbaa196e86ec3c17962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 22/46] fix: declare lists and records of other packages as
 nullable, as those of the same package are

---
 typescript.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index b48496b..9bb554f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -69,7 +69,10 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			// a list or record of another package
+			hidden, isHidden := structs[v.Scalar.FullName()]
+			isNullable := v.IsPtr || isHidden && (hidden.Array != nil || hidden.Map != nil)
+			if isNullable && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From c91d99ea0b72ab6aeb03e790b65710948cff462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 23/46] fix: keep parameters and results clear of the names
 generated clients and servers use themselves

---
 go.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..4683353 100644
--- a/go.go
+++ b/go.go
@@ -285,6 +285,19 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 	return nil
 }
 
+// variables of the generated code, which parameters and results may not redeclare
+var (
+	goTSRPCNames = map[string]bool{"tsc": true, "ctx": true, "args": true, "reply": true, "clientErr": true}
+	goGoRPCNames = map[string]bool{"tsc": true, "req": true, "rpcCallRes": true, "rpcCallErr": true, "response": true, "clientErr": true}
+)
+
+func goVarName(name string, taken map[string]bool) string {
+	if taken[name] {
+		return name + "_"
+	}
+	return name
+}
+
 type goMethod struct {
 	name    string
 	params  []string
@@ -298,8 +311,9 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 	var params []string
 	params = append(params, "ctx go_context.Context")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := goVarName(a.Name, goTSRPCNames)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
@@ -308,6 +322,7 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 		if len(name) == 0 {
 			name = fmt.Sprintf("ret%s_%d", method.Name, i)
 		}
+		name = goVarName(name, goTSRPCNames)
 		rets = append(rets, "&"+name)
 		returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 	}
@@ -542,8 +557,9 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				if len(name) == 0 {
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
-				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				variable := goVarName(name, goGoRPCNames)
+				rets = append(rets, variable)
+				retParams = append(retParams, ucfirst(name)+`: `+variable)
 			}
 			g.l(`case "` + service.Name + method.Name + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -636,8 +652,9 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			args := []string{}
 			params := []string{}
 			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+				name := goVarName(a.Name, goGoRPCNames)
+				args = append(args, ucfirst(a.Name)+`: `+name)
+				params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
@@ -647,7 +664,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 					name = fmt.Sprintf("ret%s_%d", method.Name, i)
 				}
 				rets = append(rets, "response."+ucfirst(name))
-				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
+				returns = append(returns, goVarName(name, goGoRPCNames)+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-- 
2.43.0


From 1a9fc3bd1851f9730fc60bbef4940b642fae21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 24/46] fix: rename parameters of TypeScript clients which are
 reserved words there

---
 typscriptclient.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..f842cb5 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,21 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+// words which are names in Go and none in TypeScript, and a variable of the client
+var tsReservedNames = map[string]bool{
+	"arguments": true, "await": true, "catch": true, "class": true, "debugger": true, "delete": true, "do": true, "enum": true, "eval": true,
+	"export": true, "extends": true, "false": true, "finally": true, "function": true, "implements": true, "in": true, "instanceof": true,
+	"let": true, "new": true, "null": true, "private": true, "protected": true, "public": true, "static": true, "super": true, "this": true,
+	"throw": true, "true": true, "try": true, "typeof": true, "void": true, "while": true, "with": true, "yield": true, "response": true,
+}
+
+func tsParamName(name string) string {
+	if tsReservedNames[name] {
+		return name + "_"
+	}
+	return name
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -47,10 +62,10 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			ts.app(tsParamName(arg.tsName()))
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, tsParamName(arg.Name))
 			argCount++
 		}
 		ts.app("):")
-- 
2.43.0


From 6e9deb4843998025174afdf23c6e88df7545a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 25/46] fix: names starting with letters outside ASCII are
 exported or not by Go's rules

---
 servicereader.go | 3 +--
 typereader.go    | 6 +++---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..19c21a7 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -37,8 +37,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
diff --git a/typereader.go b/typereader.go
index 04c34a4..4c47d7f 100644
--- a/typereader.go
+++ b/typereader.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/token"
 	"os"
 	"reflect"
 	"strings"
@@ -165,7 +166,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if fieldIdent.IsExported() {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -344,8 +345,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !token.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From 6d9a9ed805a70a6b01af18ca17bb11d444cc008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 26/46] fix: declare runes as numbers

---
 servicereader.go | 3 ++-
 typereader.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 19c21a7..1c3f058 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -216,7 +216,8 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
 									"int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64":
+									"uint", "uint8", "uint16", "uint32", "uint64",
+									"rune":
 									constantTypes[spec.Name.Name] = "number"
 								default:
 									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
diff --git a/typereader.go b/typereader.go
index 4c47d7f..6cdb589 100644
--- a/typereader.go
+++ b/typereader.go
@@ -133,7 +133,8 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeByte
 	case "float", "float32", "float64",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint8", "uint16", "uint32", "uint64",
+		"rune":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
-- 
2.43.0


From d35faf55d759e3a37192535bb07b3117c332fc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 27/46] fix: packages whose path only starts like the module's
 are of other modules

---
 build.go   | 2 +-
 gotsrpc.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 1f6f1df..3b0137c 100644
--- a/build.go
+++ b/build.go
@@ -55,7 +55,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if gomod.Name != "" && inModule(target.Package, gomod.Name) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index 26acab0..e9edc25 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -167,8 +167,13 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
+// inModule tells whether a package belongs to a module by its path
+func inModule(packageName string, modulePath string) bool {
+	return packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/")
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if gomod.Name != "" && inModule(packageName, gomod.Name) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From b5a81f5c016586da4d2b68479fc22c6db6ebca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 28/46] fix: find packages of nested modules in the module with
 the longest path

---
 gotsrpc.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index e9edc25..61aafc0 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -185,8 +185,20 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 		var dir string
 		fset := token.NewFileSet()
 		if gomod.ModFile != nil {
+			// a package belongs to the module with the longest path
+			modulePath := ""
+			for _, req := range gomod.ModFile.Require {
+				if inModule(packageName, req.Mod.Path) && len(req.Mod.Path) > len(modulePath) {
+					modulePath = req.Mod.Path
+				}
+			}
+			for _, rep := range gomod.ModFile.Replace {
+				if inModule(packageName, rep.Old.Path) && len(rep.Old.Path) > len(modulePath) {
+					modulePath = rep.Old.Path
+				}
+			}
 			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
+				if rep.Old.Path == modulePath {
 					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
 						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
 						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
@@ -199,7 +211,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 			}
 			if dir == "" {
 				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
+					if req.Mod.Path == modulePath {
 						trace("resolving mod package", packageName, req.Mod.String())
 						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
 						break
-- 
2.43.0


From a620ace897c57ba4c04a559705ce24529900cbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 29/46] fix: find packages of modules replaced by absolute
 paths

---
 gotsrpc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 61aafc0..a5f30d3 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -201,7 +201,11 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				if rep.Old.Path == modulePath {
 					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
 						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
+						newDir := rep.New.Path
+						if !filepath.IsAbs(newDir) {
+							newDir = filepath.Join(gomod.Path, newDir)
+						}
+						dir = strings.Replace(packageName, rep.Old.Path, newDir, 1)
 					} else {
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
 						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-- 
2.43.0


From 2fa59083047f9907d048e2e54746b4baec22b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 30/46] fix: find packages of modules with upper case letters
 in the module cache

---
 gotsrpc.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index a5f30d3..577079b 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -20,6 +20,7 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -172,6 +173,17 @@ func inModule(packageName string, modulePath string) bool {
 	return packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/")
 }
 
+// moduleCacheName is the name of a module's directory in the module cache,
+// where upper case letters are escaped
+func moduleCacheName(mod module.Version) string {
+	modulePath, pathErr := module.EscapePath(mod.Path)
+	version, versionErr := module.EscapeVersion(mod.Version)
+	if pathErr != nil || versionErr != nil {
+		return mod.String()
+	}
+	return modulePath + "@" + version
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
 	if gomod.Name != "" && inModule(packageName, gomod.Name) {
 		fset := token.NewFileSet()
@@ -208,7 +220,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 						dir = strings.Replace(packageName, rep.Old.Path, newDir, 1)
 					} else {
 						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
+						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", moduleCacheName(rep.New), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
 					}
 					break
 				}
@@ -217,7 +229,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				for _, req := range gomod.ModFile.Require {
 					if req.Mod.Path == modulePath {
 						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
+						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", moduleCacheName(req.Mod), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
 						break
 					}
 				}
-- 
2.43.0


From 0b3de441c3cfd9da63a65d77e3c7e3352ccfd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 31/46] fix: declare types which are defined on other types of
 their package

---
 servicereader.go | 27 +++++++++++++++++++++++++--
 typereader.go    | 18 ++++++++++++++++--
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 1c3f058..f0950a2 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -192,6 +192,29 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
+	typeSpecs := map[string]*ast.TypeSpec{}
+	for _, file := range pkg.Files {
+		for _, decl := range file.Decls {
+			if genDecl, ok := decl.(*ast.GenDecl); ok {
+				for _, spec := range genDecl.Specs {
+					if spec, ok := spec.(*ast.TypeSpec); ok {
+						typeSpecs[spec.Name.Name] = spec
+					}
+				}
+			}
+		}
+	}
+	// a type which is defined on another one of the package has the same underlying type
+	underlying := func(expr ast.Expr) ast.Expr {
+		for range typeSpecs {
+			ident, ok := expr.(*ast.Ident)
+			if !ok || typeSpecs[ident.Name] == nil {
+				break
+			}
+			expr = typeSpecs[ident.Name].Type
+		}
+		return expr
+	}
 	for _, file := range pkg.Files {
 		for _, decl := range file.Decls {
 			if genDecl, ok := decl.(*ast.GenDecl); ok {
@@ -203,12 +226,12 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 							if _, ok := constantTypes[spec.Name.Name]; ok {
 								continue
 							}
-							switch specType := spec.Type.(type) {
+							switch specType := underlying(spec.Type).(type) {
 							case *ast.InterfaceType:
 								constantTypes[spec.Name.Name] = "any"
 							case *ast.Ident:
 								switch specType.Name {
-								case "byte":
+								case "byte", "any":
 									constantTypes[spec.Name.Name] = "any"
 								case "string":
 									constantTypes[spec.Name.Name] = "string"
diff --git a/typereader.go b/typereader.go
index 6cdb589..9bc8ca4 100644
--- a/typereader.go
+++ b/typereader.go
@@ -18,8 +18,9 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 	trace("reading files in package", packageName)
 	scalars = map[string]*Scalar{}
 	errorTypes := map[string]bool{}
+	definedOn := map[string]string{}
 	for _, file := range pkg.Files {
-		err = extractTypes(file, packageName, structs, scalars)
+		err = extractTypes(file, packageName, structs, scalars, definedOn)
 		if err != nil {
 			return
 		}
@@ -29,6 +30,18 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 			return
 		}
 	}
+	for name, other := range definedOn {
+		for i := 0; i < len(definedOn) && definedOn[other] != ""; i++ {
+			other = definedOn[other]
+		}
+		// a type which is defined on a struct, list or map of the package is one too
+		if otherStruct, ok := structs[other]; ok {
+			structType := *otherStruct
+			structType.Name = strings.TrimPrefix(name, packageName+".")
+			structs[name] = &structType
+			delete(scalars, name)
+		}
+	}
 	for name, structType := range structs {
 		_, isErrorType := errorTypes[name]
 		if isErrorType {
@@ -391,7 +404,7 @@ func extractErrorTypes(file *ast.File, packageName string, errorTypes map[string
 	return
 }
 
-func extractTypes(file *ast.File, packageName string, structs map[string]*Struct, scalars map[string]*Scalar) error {
+func extractTypes(file *ast.File, packageName string, structs map[string]*Struct, scalars map[string]*Scalar, definedOn map[string]string) error {
 	fileImports := getFileImports(file, packageName)
 	for name, obj := range file.Scope.Objects {
 		if obj.Kind == ast.Typ && obj.Decl != nil {
@@ -424,6 +437,7 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 						Package: packageName,
 						Type:    getScalarFromAstIdent(typeSpecType),
 					}
+					definedOn[structName] = packageName + "." + typeSpecType.Name
 				case *ast.SelectorExpr:
 					trace("SelectorExpr", obj.Name)
 					structs[structName] = &Struct{
-- 
2.43.0


From 65795c4024945b532779194d81a46d6de1724ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 32/46] fix: find scalars of mappings in packages of which the
 target uses no other type

---
 servicereader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index f0950a2..8bd2d11 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -356,6 +356,21 @@ func Read(
 			}
 		}
 	}
+	for fullName, missing := range missingConstants {
+		dot := strings.LastIndex(fullName, ".")
+		if !missing || dot < 0 {
+			continue
+		}
+		constPackage := fullName[:dot]
+		if _, ok := allConstantTypes[constPackage]; !ok {
+			pkg, constPkgErr := parsePackage(goPaths, gomod, constPackage)
+			if constPkgErr != nil {
+				err = constPkgErr
+				return
+			}
+			allConstantTypes[constPackage] = loadConstantTypes(pkg)
+		}
+	}
 
 	flatStructs := map[string]bool{}
 	for _, s := range structs {
-- 
2.43.0


From b45a6b40c19844692790a2e94840fd1e9866ceb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 33/46] fix: declare types of mappings when a target without
 TypeScript comes first

---
 build.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/build.go b/build.go
index 3b0137c..1b7d389 100644
--- a/build.go
+++ b/build.go
@@ -141,6 +141,18 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 			os.Exit(2)
 		}
 
+		// nothing is declared for a target without output, other targets have to
+		if target.Out == "" {
+			for _, mapping := range conf.Mappings {
+				for _, include := range mapping.Structs {
+					missingTypes[include] = true
+				}
+				for _, include := range mapping.Scalars {
+					missingConstants[include] = true
+				}
+			}
+		}
+
 		// collect all union structs
 		unions := map[string][]string{}
 		for _, s := range structs {
-- 
2.43.0


From 2c4bdf0662a94307ca17d123f4cff11a0ec3b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 34/46] fix: name members of enums by identifiers, each by its
 own

---
 typescript.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 9bb554f..6f60fa5 100644
--- a/typescript.go
+++ b/typescript.go
@@ -31,6 +31,30 @@ func tsPropertyName(name string) string {
 	return strconv.Quote(name)
 }
 
+// tsEnumMembers names the members for constants: without the name of their type,
+// where that leaves an identifier of their own
+func tsEnumMembers(constants []string, typeName string) map[string]string {
+	short := func(name string) string { return strings.TrimPrefix(strcase.ToCamel(name), typeName) }
+	members := map[string]string{}
+	for _, name := range []func(string) string{short, strcase.ToCamel} {
+		count := map[string]int{}
+		for _, k := range constants {
+			count[name(k)]++
+		}
+		for _, k := range constants {
+			if _, ok := members[k]; !ok && count[name(k)] == 1 && tsIdentifier.MatchString(name(k)) {
+				members[k] = name(k)
+			}
+		}
+	}
+	for _, k := range constants {
+		if _, ok := members[k]; !ok {
+			members[k] = k
+		}
+	}
+	return members
+}
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -285,8 +309,9 @@ func renderTypescriptStructsToPackages(
 					}
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
+					members := tsEnumMembers(keys, packageConstantTypeName)
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
+						enum := members[k]
 						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
-- 
2.43.0


From 4e242c5c6c3b995cd28d21e45840e723fecce6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 35/46] fix: declare constants with signs, characters and raw
 strings as their values

---
 servicereader.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/servicereader.go b/servicereader.go
index 8bd2d11..a2e0d5c 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -1,9 +1,11 @@
 package gotsrpc
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"reflect"
 	"sort"
@@ -190,6 +192,32 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// constantLiteral is the literal an expression consists of, in a notation
+// which means the same in TypeScript
+func constantLiteral(expr ast.Expr) *ast.BasicLit {
+	switch lit := expr.(type) {
+	case *ast.ParenExpr:
+		return constantLiteral(lit.X)
+	case *ast.UnaryExpr:
+		number := constantLiteral(lit.X)
+		if lit.Op == token.SUB && number != nil && number.Kind != token.STRING && !strings.HasPrefix(number.Value, "-") {
+			return &ast.BasicLit{Kind: number.Kind, Value: "-" + number.Value}
+		}
+	case *ast.BasicLit:
+		value := constant.MakeFromLiteral(lit.Value, lit.Kind, 0)
+		switch {
+		case lit.Kind == token.CHAR, lit.Kind == token.INT && len(lit.Value) > 1 && lit.Value[0] == '0':
+			return &ast.BasicLit{Kind: token.INT, Value: value.ExactString()}
+		case lit.Kind == token.STRING && strings.ContainsAny(lit.Value, "`\\"):
+			if quoted, err := json.Marshal(constant.StringVal(value)); err == nil {
+				return &ast.BasicLit{Kind: token.STRING, Value: string(quoted)}
+			}
+		}
+		return lit
+	}
+	return nil
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
 	typeSpecs := map[string]*ast.TypeSpec{}
@@ -256,7 +284,7 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
 							if specType, ok := spec.Type.(*ast.Ident); ok {
 								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
+									if valType := constantLiteral(val); valType != nil {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
-- 
2.43.0


From 603044a07d4b319f707501c7265f83c799cb8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:08 +0000
Subject: [PATCH 36/46] fix: find packages which are imported by a name that is
 not their directory's

---
 servicereader.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index a2e0d5c..da1d95a 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -8,6 +8,7 @@ import (
 	"go/constant"
 	"go/token"
 	"reflect"
+	"regexp"
 	"sort"
 	"strings"
 
@@ -116,6 +117,21 @@ func standardImportName(importPath string) string {
 	return pathParts[len(pathParts)-1]
 }
 
+var (
+	majorVersionSuffix = regexp.MustCompile(`/v[0-9]+$`)
+	packageNameInPath  = regexp.MustCompile(`^(?:go-)?([\pL_][\pL\d_]*)`)
+)
+
+// conventionalImportName is the name packages have by convention, if their
+// directory has another one: .../model/v2, .../go-model and .../model.v2 are model
+func conventionalImportName(importPath string) string {
+	name := packageNameInPath.FindStringSubmatch(standardImportName(majorVersionSuffix.ReplaceAllString(importPath, "")))
+	if name == nil {
+		return ""
+	}
+	return name[1]
+}
+
 func getFileImports(file *ast.File, packageName string) (imports fileImportSpecMap) {
 	imports = fileImportSpecMap{"": importSpec{alias: "", name: "", path: packageName}}
 	for _, decl := range file.Decls {
@@ -140,6 +156,14 @@ func getFileImports(file *ast.File, packageName string) (imports fileImportSpecM
 			}
 		}
 	}
+	for _, spec := range file.Imports {
+		importPath := spec.Path.Value[1 : len(spec.Path.Value)-1]
+		if importName := conventionalImportName(importPath); spec.Name == nil && importName != "" {
+			if _, taken := imports[importName]; !taken {
+				imports[importName] = importSpec{alias: importName, name: standardImportName(importPath), path: importPath}
+			}
+		}
+	}
 	return imports
 }
 
-- 
2.43.0


From 30f965f7334da69687aba006dbccaaaf94ba7c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:00 +0000
Subject: [PATCH 37/46] fix: fail if a configured service does not exist

---
 build.go         | 9 +++++++++
 config/config.go | 9 +++++++++
 servicereader.go | 5 +++++
 3 files changed, 23 insertions(+)

diff --git a/build.go b/build.go
index 1b7d389..37b2a6f 100644
--- a/build.go
+++ b/build.go
@@ -141,6 +141,15 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 			os.Exit(2)
 		}
 
+		for _, serviceNames := range [][]string{target.TSRPC, target.GoRPC} {
+			for _, serviceName := range serviceNames {
+				if !target.HasService(serviceName) {
+					_, _ = fmt.Fprintln(os.Stderr, "	service", serviceName, "is not one of the services of target", name)
+					os.Exit(2)
+				}
+			}
+		}
+
 		// nothing is declared for a target without output, other targets have to
 		if target.Out == "" {
 			for _, mapping := range conf.Mappings {
diff --git a/config/config.go b/config/config.go
index d84cec9..ad68aac 100644
--- a/config/config.go
+++ b/config/config.go
@@ -20,6 +20,15 @@ type Target struct {
 	SkipTSRPCClient  bool              `yaml:"skipTSRPCClient"`
 }
 
+func (t *Target) HasService(service string) bool {
+	for _, value := range t.Services {
+		if value == service {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *Target) IsGoRPC(service string) bool {
 	for _, value := range t.GoRPC {
 		if value == service {
diff --git a/servicereader.go b/servicereader.go
index da1d95a..e233f0c 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -213,6 +213,11 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 		}
 	}
 	sort.Sort(services)
+	for _, service := range services {
+		if object := pkg.Scope.Lookup(service.Name); object == nil || object.Kind != ast.Typ {
+			return nil, errors.New("could not find service " + service.Name + " in package " + packageName)
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 37da1d3265ad22dd9de1f5d44334bf331e42c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:16 +0000
Subject: [PATCH 38/46] fix: read field tags which are written as interpreted
 strings

---
 typereader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 9bc8ca4..a5256c6 100644
--- a/typereader.go
+++ b/typereader.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"os"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"gopkg.in/yaml.v2"
@@ -334,7 +335,11 @@ func readField(astField *ast.Field, fileImports fileImportSpecMap) (names []stri
 	v = &Value{}
 	v.loadExpr(astField.Type, fileImports)
 	if astField.Tag != nil {
-		jsonInfo = extractJSONInfo(astField.Tag.Value[1 : len(astField.Tag.Value)-1])
+		tag, err := strconv.Unquote(astField.Tag.Value)
+		if err != nil {
+			tag = astField.Tag.Value[1 : len(astField.Tag.Value)-1]
+		}
+		jsonInfo = extractJSONInfo(tag)
 	}
 	return
 }
-- 
2.43.0


From 98a4a1de3367550bd0f912dc5ebeb6a62e7baaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 39/46] fix: declare fields which are named by json:"-,"

---
 typereader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index a5256c6..67562be 100644
--- a/typereader.go
+++ b/typereader.go
@@ -95,10 +95,10 @@ func extractJSONInfo(tag string) *JSONInfo {
 	ignore := false
 
 	if len(jsonTags) > 0 {
-		switch jsonTags[0] {
-		case "":
+		switch {
+		case jsonTags[0] == "":
 			// do nothing
-		case "-":
+		case jsonTags[0] == "-" && len(jsonTags) == 1:
 			ignore = true
 		default:
 			name = jsonTags[0]
-- 
2.43.0


From ecc89a06bd07fd5c3e66d85d19ae3732fd6b9115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 40/46] fix: keep commas within the TypeScript types of field
 tags

---
 typereader.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 67562be..75a6722 100644
--- a/typereader.go
+++ b/typereader.go
@@ -71,11 +71,34 @@ func traceData(args ...interface{}) {
 	}
 }
 
+// splitTag splits at the commas which are not part of a TypeScript type
+func splitTag(tag string) (parts []string) {
+	start, depth, quote := 0, 0, rune(0)
+	for i, r := range tag {
+		switch {
+		case quote != 0:
+			if r == quote {
+				quote = 0
+			}
+		case r == '\'' || r == '"' || r == '`':
+			quote = r
+		case strings.ContainsRune("<[({", r):
+			depth++
+		case strings.ContainsRune(">])}", r) && !strings.HasSuffix(tag[:i], "="):
+			depth--
+		case r == ',' && depth == 0:
+			parts = append(parts, tag[start:i])
+			start = i + 1
+		}
+	}
+	return append(parts, tag[start:])
+}
+
 func extractJSONInfo(tag string) *JSONInfo {
 	structTag := reflect.StructTag(tag)
 
 	jsonTags := strings.Split(structTag.Get("json"), ",")
-	gotsrpcTags := strings.Split(structTag.Get("gotsrpc"), ",")
+	gotsrpcTags := splitTag(structTag.Get("gotsrpc"))
 	if len(jsonTags) == 0 && len(gotsrpcTags) == 0 {
 		return nil
 	}
-- 
2.43.0


From 400c189d72fe833a0610c350a00b0c03e966e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 41/46] fix: hide properties of embedded structs as their
 fields are hidden

---
 typescript.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/typescript.go b/typescript.go
index 6f60fa5..486012f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -178,6 +178,42 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 	}
 }
 
+// hiddenProperties lists the properties of an inlined struct which are hidden by
+// fields of the struct it is part of
+func hiddenProperties(str *Struct, inlineField *Field, structs map[string]*Struct) (hidden []string) {
+	inlined := map[string]bool{}
+	seen := map[*Struct]bool{}
+	var collect func(v *Value)
+	collect = func(v *Value) {
+		var name string
+		switch {
+		case v.StructType != nil:
+			name = v.StructType.FullName()
+		case v.Scalar != nil:
+			// a struct of another package
+			name = v.Scalar.FullName()
+		}
+		inlinedStruct, ok := structs[name]
+		if !ok || inlinedStruct == nil || seen[inlinedStruct] {
+			return
+		}
+		seen[inlinedStruct] = true
+		for _, f := range inlinedStruct.Fields {
+			inlined[f.tsName()] = true
+		}
+		for _, f := range inlinedStruct.InlineFields {
+			collect(f.Value)
+		}
+	}
+	collect(inlineField.Value)
+	for _, f := range str.Fields {
+		if len(f.Name) > 0 && (f.JSONInfo == nil || !f.JSONInfo.Ignore) && inlined[f.tsName()] {
+			hidden = append(hidden, strconv.Quote(f.tsName()))
+		}
+	}
+	return hidden
+}
+
 func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	ts.l("// " + str.FullName())
 	switch {
@@ -241,6 +277,10 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			if i > 0 {
 				ts.app(", ")
 			}
+			hidden := hiddenProperties(str, inlineField, structs)
+			if len(hidden) > 0 {
+				ts.app("Omit<")
+			}
 			if inlineField.Value.IsPtr {
 				ts.app("Partial<")
 			}
@@ -248,6 +288,9 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			if inlineField.Value.IsPtr {
 				ts.app(">")
 			}
+			if len(hidden) > 0 {
+				ts.app("," + strings.Join(hidden, "|") + ">")
+			}
 			ts.app(" ")
 		}
 		ts.app("{")
-- 
2.43.0


From d1f01810a09c4b04f3355bd0492bc09de0a466d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 42/46] fix: import packages whose paths differ in replaced
 characters only by names of their own

---
 build.go | 17 +++++++++++++++--
 go.go    | 18 ++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 37b2a6f..d9f313e 100644
--- a/build.go
+++ b/build.go
@@ -18,8 +18,21 @@ import (
 
 func deriveCommonJSMapping(conf *config.Config) {
 	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
-		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+	packageNames := make([]string, 0, len(conf.Mappings))
+	for packageName := range conf.Mappings {
+		packageNames = append(packageNames, packageName)
+	}
+	sort.Strings(packageNames)
+	taken := map[string]bool{}
+	for _, packageName := range packageNames {
+		mapping := conf.Mappings[packageName]
+		module := replacer.Replace(mapping.GoPackage)
+		// paths may differ in replaced characters only
+		for taken[module] {
+			module += "_"
+		}
+		taken[module] = true
+		mapping.TypeScriptModule = module
 	}
 }
 
diff --git a/go.go b/go.go
index 4683353..2f190cb 100644
--- a/go.go
+++ b/go.go
@@ -83,11 +83,24 @@ func extractImport(packageName string, fullPackageName string, aliases map[strin
 					break
 				}
 			}
+			// the paths of other packages may differ in replaced characters only
+			for isTaken(aliases, alias) {
+				alias += "_"
+			}
 			aliases[packageName] = alias
 		}
 	}
 }
 
+func isTaken(aliases map[string]string, alias string) bool {
+	for _, otherAlias := range aliases {
+		if otherAlias == alias {
+			return true
+		}
+	}
+	return false
+}
+
 func extractImports(fields []*Field, fullPackageName string, aliases map[string]string) {
 	for _, f := range fields {
 		extractImportValue(f.Value, fullPackageName, aliases)
@@ -126,7 +139,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 9d773799fbdc4e26a5ace6adf1103d6e60031ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 43/46] fix: name parameters which have no name, blank results
 have none

---
 servicereader.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index e233f0c..4aff172 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -10,6 +10,7 @@ import (
 	"reflect"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/foomo/gotsrpc/v2/config"
@@ -49,7 +50,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
+								Args:   readParams(funcDecl.Type.Params, fileImports),
 								Return: readFields(funcDecl.Type.Results, fileImports),
 							})
 						}
@@ -79,7 +80,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
+										Args:   readParams(funcDecl.Params, fileImports),
 										Return: readFields(funcDecl.Results, fileImports),
 									})
 								}
@@ -177,6 +178,9 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	for _, param := range fieldList.List {
 		names, value, _ := readField(param, fileImports)
 		for _, name := range names {
+			if name == "_" {
+				name = ""
+			}
 			fields = append(fields, &Field{
 				Name:  name,
 				Value: value,
@@ -187,6 +191,21 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// readParams reads the parameters of a method and names those which have no name
+func readParams(fieldList *ast.FieldList, fileImports fileImportSpecMap) []*Field {
+	params := readFields(fieldList, fileImports)
+	taken := map[string]bool{}
+	for _, param := range params {
+		taken[param.Name] = true
+	}
+	for i, param := range params {
+		if param.Name == "" {
+			param.Name = goVarName("arg"+strconv.Itoa(i), taken)
+		}
+	}
+	return params
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
-- 
2.43.0


From fb53d4b4ff7f76a5e5845ddadd366729763332a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:57 +0000
Subject: [PATCH 44/46] fix: keep results clear of the variables of generated
 servers

---
 go.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go.go b/go.go
index 2f190cb..1730a41 100644
--- a/go.go
+++ b/go.go
@@ -264,7 +264,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				returnValueNames = append(returnValueNames, goVarName(lcfirst(method.Name)+ucfirst(retArgName), goProxyNames))
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
@@ -306,6 +306,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 // variables of the generated code, which parameters and results may not redeclare
 var (
 	goTSRPCNames = map[string]bool{"tsc": true, "ctx": true, "args": true, "reply": true, "clientErr": true}
+	goProxyNames = map[string]bool{"callStats": true, "executionStart": true}
 	goGoRPCNames = map[string]bool{"tsc": true, "req": true, "rpcCallRes": true, "rpcCallErr": true, "response": true, "clientErr": true}
 )
 
-- 
2.43.0


From 59e1982121940d5373eea301c2ea218fcdc401bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:25 +0000
Subject: [PATCH 45/46] fix: end the chain of causes of errors, errors.Cause
 never returned

---
 error.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 3bd86d3..94f9b0b 100644
--- a/error.go
+++ b/error.go
@@ -35,6 +35,11 @@ func NewError(err error) *Error {
 		err = errors.Unwrap(err)
 	}
 
+	// the end of a chain of causes is the error it stands for
+	if v, ok := err.(rootError); ok { //nolint:errorlint
+		return NewError(v.error)
+	}
+
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
@@ -129,7 +134,18 @@ func (e *Error) Cause() error {
 	if e.ErrCause != nil {
 		return e.ErrCause
 	}
-	return e
+	return rootError{e}
+}
+
+// rootError is the end of a chain of causes: errors.Cause goes on for as long
+// as there is a Cause
+type rootError struct {
+	error
+}
+
+// Unwrap interface
+func (e rootError) Unwrap() error {
+	return e.error
 }
 
 // Format interface
-- 
2.43.0


From 3f3f6e36ed0d37930c8977130a7ae4dc00d13aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:46 +0000
Subject: [PATCH 46/46] fix: keep methods clear of the transport and the
 constructor of TypeScript clients

---
 typscriptclient.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index f842cb5..8a87ba3 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -23,6 +23,15 @@ func tsParamName(name string) string {
 	return name
 }
 
+// tsMethodName keeps methods clear of the other members of the client's class
+func tsMethodName(name string) string {
+	name = lcfirst(name)
+	if name == "constructor" || name == "transport" {
+		return name + "_"
+	}
+	return name
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -39,7 +48,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 	ts.l(") {}")
 
 	for _, method := range service.Methods {
-		ts.app("async " + lcfirst(method.Name) + "(")
+		ts.app("async " + tsMethodName(method.Name) + "(")
 		var callArgs []string
 		argOffset := 0
 		for index, arg := range method.Args {
-- 
2.43.0

