package wire

import (
	"testing"

	"github.com/teamlint/baron/zzverif/vt"
)

const how = "random definitions are generated, compiled and run (in process, over loopback HTTP, an in-memory gRPC connection and a NATS stand-in); "

func TestC18(t *testing.T) {
	rep := vt.Start(t, "C18", how+"one to four concurrent calls with random requests and responses go through the generated HTTP client; non-trivial: a request with a field set")
	runCheck(t, rep, "C18", vt.N(3, 40), 16, vt.N(250, 1000), runSpec, anyBound)
}

func TestC19(t *testing.T) {
	rep := vt.Start(t, "C19", how+"a random request message is written by hand as the binding locates its fields, in one of the allowed spellings; non-trivial: a message with a field set")
	runCheck(t, rep, "C19", vt.N(3, 40), 16, vt.N(300, 1000), runSpec, anyBound)
}

func TestC20(t *testing.T) {
	rep := vt.Start(t, "C20", how+"every binding is requested with random path values, then near misses (other verb, longer, shorter, changed segments) judged by a reference matcher; non-trivial: a request that matches one binding or none")
	runCheck(t, rep, "C20", vt.N(3, 40), 16, vt.N(40, 150), runSpec, anyBound)
}

func TestC21(t *testing.T) {
	rep := vt.Start(t, "C21", how+"a valid request is made malformed in one way; every case is non-trivial")
	runCheck(t, rep, "C21", vt.N(3, 40), 16, vt.N(250, 1000), runSpec, anyBound)
}

func TestC22(t *testing.T) {
	rep := vt.Start(t, "C22", how+"the service returns errors with random messages, codes, headers and own JSON, or a random response; non-trivial: an error with a message or an attribute, a response with a field set")
	runCheck(t, rep, "C22", vt.N(3, 40), 16, vt.N(250, 1000), runSpec, anyBound)
}

func TestC23(t *testing.T) {
	rep := vt.Start(t, "C23", how+"calls carry random context values, some selected for sending; non-trivial: at least one value sent")
	runCheck(t, rep, "C23", vt.N(2, 25), 16, vt.N(250, 1000), runSpec, anyRpc)
}

func TestC24(t *testing.T) {
	rep := vt.Start(t, "C24", how+"one to four concurrent calls with random requests, responses and errors go through the generated gRPC client; non-trivial: a request with a field set")
	runCheck(t, rep, "C24", vt.N(3, 40), 16, vt.N(250, 1000), runSpec, anyRpc)
}

func TestC25(t *testing.T) {
	rep := vt.Start(t, "C25", how+"one to four concurrent calls with random requests, responses and errors go through the generated NATS client; non-trivial: a request with a field set")
	runCheck(t, rep, "C25", vt.N(3, 40), 16, vt.N(250, 1000), runSpec, anyRpc)
}

func TestC26(t *testing.T) {
	rep := vt.Start(t, "C26", how+"random sequences of wrappings with random exclusions, also of names that do not exist, then a call of every rpc over a random transport, compared with the trace the wrappings should leave; non-trivial: at least one wrapping of at least two rpcs")
	runCheck(t, rep, "C26", vt.N(2, 25), 16, vt.N(80, 300), runSpec, anyRpc)
}

func TestC36(t *testing.T) {
	rep := vt.Start(t, "C36", how+"a call that the service holds is given up by its caller (cancelled, or its deadline passes, before or during the call) over a random transport; then a further call; every case is non-trivial")
	runCheck(t, rep, "C36", vt.N(3, 25), 16, vt.N(60, 300), runSpec, anyRpc)
}

func TestC37(t *testing.T) {
	rep := vt.Start(t, "C37", how+"two to twelve calls at a time over all transports through shared clients, built with Go's race detector; non-trivial: more than three calls")
	runCheck(t, rep, "C37", vt.N(2, 20), 16, vt.N(40, 200), runSpec, anyRpc)
}

func TestC41(t *testing.T) {
	rep := vt.Start(t, "C41", how+"servers and clients are made with random transport options, then calls of every rpc and requests of every binding, with responses, errors and malformed bodies, are compared with what the options should do; non-trivial: at least one option for a transport that is called")
	runCheck(t, rep, "C41", vt.N(2, 25), 16, vt.N(80, 300), runSpec, anyRpc)
}

func TestC42(t *testing.T) {
	rep := vt.Start(t, "C42", how+"a generated server gets requests, and a generated client responses, as others write them: every spelling the JSON mapping allows, unknown members, unknown fields in the binary encoding, any content type and chunking; non-trivial: a message with a field set (JSON), an unknown field (gRPC)")
	runCheck(t, rep, "C42", vt.N(3, 25), 16, vt.N(150, 600), runSpec, anyRpc)
}
