#!/usr/bin/env python3
"""Bugs in the policy log client, the gRPC interface and the bundles of dirty domains (see plant.py)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import bug, main
from seeds2 import m
import plant
plant.BUGS.clear()

Q = '''
package client

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/google/trillian"
	"github.com/google/trillian/types"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

var _ = time.Now
var _ = fmt.Sprint

type fake struct {
	trillian.TrillianLogClient
	mux   sync.Mutex
	later int            // how often each leaf is not found
	asked map[string]int
	never map[string]bool
	cons  [][2]int64
}

func (f *fake) GetInclusionProofByHash(ctx context.Context, in *trillian.GetInclusionProofByHashRequest, _ ...grpc.CallOption) (*trillian.GetInclusionProofByHashResponse, error) {
	f.mux.Lock()
	defer f.mux.Unlock()
	k := string(in.LeafHash)
	f.asked[k]++
	if f.never[k] {
		return nil, status.Error(codes.Internal, "no")
	}
	if f.asked[k] <= f.later {
		return nil, status.Error(codes.NotFound, "later")
	}
	root, _ := (&types.LogRootV1{TreeSize: uint64(in.TreeSize), RootHash: make([]byte, 32)}).MarshalBinary()
	return &trillian.GetInclusionProofByHashResponse{
		Proof:         []*trillian.Proof{{LeafIndex: 1, Hashes: [][]byte{in.LeafHash}}},
		SignedLogRoot: &trillian.SignedLogRoot{LogRoot: root},
	}, nil
}

func (f *fake) GetConsistencyProof(ctx context.Context, in *trillian.GetConsistencyProofRequest, _ ...grpc.CallOption) (*trillian.GetConsistencyProofResponse, error) {
	f.cons = append(f.cons, [2]int64{in.FirstTreeSize, in.SecondTreeSize})
	return &trillian.GetConsistencyProofResponse{Proof: &trillian.Proof{Hashes: [][]byte{make([]byte, 32)}}}, nil
}

func cl(f *fake, workers int) *LogClient {
	f.asked = map[string]int{}
	c := &LogClient{treeId: 7, currentTreeSize: 100, config: &LogClientConfig{}}
	for i := 0; i < workers; i++ {
		c.worker = append(c.worker, f)
	}
	return c
}

func leaves(n int) (r [][]byte) {
	for i := 0; i < n; i++ {
		r = append(r, []byte(fmt.Sprintf("leaf %d", i)))
	}
	return
}
'''

def q(id, edits, body, needs, breaks):
    bug(id, 'Q01', edits, 'pkg/policylog/client', Q + body, needs, breaks)

F = 'pkg/policylog/client/concurrentfunc.go'
q('q01-shared-tries', [(F, '''	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64) {
	for {
''', '''	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64) {
	// retry number counter
	tries := 0
	for {
'''), (F, '''		// retry number counter
		tries := 0
	workerQueryLoop:''', '''	workerQueryLoop:''')], '''
func TestZZDemo(t *testing.T) {
	c := cl(&fake{later: 4}, 1)
	r := c.FetchInclusions(context.Background(), leaves(6))
	if len(r.PoIs) != 6 || len(r.Errs) != 0 {
		t.Fatalf("%d proofs, %v", len(r.PoIs), r.Errs)
	}
}
''', 'several leaves per worker which the log does not find at once, more than ten answers "not found" in total',
 'the retries of a worker are counted over all its leaves: leaves the log has after a few tries are reported as failed')

q('q01-name-of-last', [(F, '''				fetchInclusionResult.FailedLeaves = append(fetchInclusionResult.FailedLeaves, workerResult.failedLeafData)
				fetchInclusionResult.FailedLeavesName = append(fetchInclusionResult.FailedLeavesName, workerResult.leafName)
			} else {
				// if no err, add the poi to the result
				fetchInclusionResult.PoIs[workerResult.leafName] = workerResult.PoI
			}
			resultCounter = resultCounter + 1
			if resultCounter == dataSize {
''', '''				fetchInclusionResult.FailedLeaves = append(fetchInclusionResult.FailedLeaves, workerResult.failedLeafData)
				if len(fetchInclusionResult.FailedLeavesName) < jobCounter-len(c.worker) || len(fetchInclusionResult.PoIs) == 0 {
					fetchInclusionResult.FailedLeavesName = append(fetchInclusionResult.FailedLeavesName, workerResult.leafName)
				}
			} else {
				// if no err, add the poi to the result
				fetchInclusionResult.PoIs[workerResult.leafName] = workerResult.PoI
			}
			resultCounter = resultCounter + 1
			if resultCounter == dataSize {
''')], '''
func TestZZDemo(t *testing.T) {
	f := &fake{never: map[string]bool{}}
	c := cl(f, 3)
	l := leaves(3)
	f.never[string(buildLeaf(l[2]).MerkleLeafHash)] = true
	for i := 0; i < 50; i++ {
		r := c.FetchInclusions(context.Background(), l)
		if len(r.PoIs) != 2 || len(r.FailedLeavesName) != len(r.FailedLeaves) {
			t.Fatalf("%d proofs, %d failed leaves, %d names", len(r.PoIs), len(r.FailedLeaves), len(r.FailedLeavesName))
		}
	}
}
''', 'a failing leaf among the last ones, while others have proofs', 'a leaf that fails at the end of the list is reported without its name')

q('q01-own-size', [('pkg/policylog/client/logclient.go', '''		SecondTreeSize: int64(newRoot.TreeSize),
	}
''', '''		SecondTreeSize: int64(newRoot.TreeSize),
	}
	// do not ask for more than this client has seen
	if c.currentTreeSize > req.FirstTreeSize && c.currentTreeSize < req.SecondTreeSize {
		req.SecondTreeSize = c.currentTreeSize
	}
'''), ('pkg/policylog/client/logclient.go', '''	// use one single thread to do this.
''', '''	// use one single worker to do this.
''')], '''
func TestZZDemo(t *testing.T) {
	f := &fake{}
	c := cl(f, 1)
	_, err := c.GetConsistencyProof(context.Background(), &types.LogRootV1{TreeSize: 50}, &types.LogRootV1{TreeSize: 150})
	if err != nil || f.cons[0] != [2]int64{50, 150} {
		t.Fatal(err, f.cons)
	}
}
''', 'a consistency proof to a root newer than the size the client last updated to', 'the proof leads to another size than the new root')

G = '''
func serve(t *testing.T, conn db.Conn, port int) (chan byte, chan error) {
	s, err := grpcserver.NewGRPCServer(context.Background(), conn, random.RandomRSAPrivateKey(t))
	must(t, err)
	end, done := make(chan byte), make(chan error, 1)
	go func() { done <- s.StartWork(end, port) }()
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", fmt.Sprintf("localhost:%d", port))
		if err == nil {
			c.Close()
			return end, done
		}
		if i > 200 {
			t.Fatal(err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func freePort(t *testing.T) int {
	l, err := net.Listen("tcp", ":0")
	must(t, err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}
'''
IMP = ('net', 'github.com/netsec-ethz/fpki/pkg/grpc/grpcclient', 'github.com/netsec-ethz/fpki/pkg/grpc/grpcserver')
S = 'pkg/grpc/grpcserver/grpcserver.go'
m('n01-answers-kept', 'N01', [(S, '''	proofs, err := server.responder.GetProof(ctx, in.DomainName)
	if err != nil {
		return nil, err
	}
''', '''	if kept, ok := answers.Load(in.DomainName); ok {
		return &pb.MapClientReply{DomainName: in.GetDomainName(), Proof: kept.([]byte)}, nil
	}
	proofs, err := server.responder.GetProof(ctx, in.DomainName)
	if err != nil {
		return nil, err
	}
'''), (S, '''	return &pb.MapClientReply{
		DomainName: in.GetDomainName(),
''', '''	answers.Store(in.DomainName, resultBytes)
	return &pb.MapClientReply{
		DomainName: in.GetDomainName(),
'''), (S, '''type GRPCProofs struct {''', '''// answers already computed: the tree of a responder does not change.
var answers sync.Map

type GRPCProofs struct {'''), (S, '''	"log"
	"net"
''', '''	"log"
	"net"
	"sync"
''')], G + '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_n01")
	port := freePort(t)
	for i := 0; i < 2; i++ {
		must(t, add(t, conn, []ctx509.Certificate{random.RandomX509Cert(t, "a.com")}, nil))
		must(t, cycle(conn))
		end, done := serve(t, conn, port)
		p, err := grpcclient.GetProofs("a.com", port)
		must(t, err)
		end <- 1
		must(t, <-done)
		if fmt.Sprintf("%x", p[0].PoI.Root) != root(t, conn) {
			t.Fatal("root of an earlier tree")
		}
	}
}
''', 'the same name is asked for again after the server was replaced, in one process, by one with a newer tree', 'a server with a newer tree gives the answers of the earlier one', 'pkg/grpc/grpcclient', IMP)

m('n01-lowercase', 'N01', [(S, '''	proofs, err := server.responder.GetProof(ctx, in.DomainName)
''', '''	proofs, err := server.responder.GetProof(ctx, strings.ToLower(strings.TrimSpace(in.DomainName)))
'''), (S, '''	"log"
	"net"
''', '''	"log"
	"net"
	"strings"
''')], G + '''
func TestZZDemo(t *testing.T) {
	conn := demoDB(t, "demo_n01l")
	port := freePort(t)
	must(t, add(t, conn, []ctx509.Certificate{random.RandomX509Cert(t, "a.com")}, nil))
	must(t, cycle(conn))
	end, done := serve(t, conn, port)
	_, err := grpcclient.GetProofs("a.com", port)
	must(t, err)
	if _, err = grpcclient.GetProofs(" a.com", port); err == nil {
		t.Fatal("an invalid name is accepted")
	}
	end <- 1
	must(t, <-done)
}
''', 'a name with space around it', 'an invalid name gets an answer instead of an error', 'pkg/grpc/grpcclient', IMP)

if __name__ == '__main__': main()
