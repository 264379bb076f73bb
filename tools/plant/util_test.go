package zzdemo

import (
	"fmt"
	"net"
	"testing"
	"time"

	"trypo/pkg/arbiter"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	kmrpc "trypo/pkg/kmeans/rpc"
	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

type DP = common.DataPoint
type CM = centroidmanager.CentroidManager
type C = centroid.Centroid
type Addr = arbiter.Addr

func pt(p string, v ...float64) DP { return DP{Vec: v, Payload: []byte(p)} }

func old(p string, v ...float64) DP {
	return DP{Vec: v, Payload: []byte(p), ExpireEnabled: true, Expires: time.Now().Add(60 * time.Millisecond)}
}

func group(euc bool, v ...float64) *C {
	a := centroid.NewCentroidArgs{InitVec: v, InitCap: 4, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos}
	if euc {
		a.KNNSearchFunc, a.KFNSearchFunc = searchutils.KNNEuc, searchutils.KFNEuc
	}
	c, _ := centroid.NewCentroid(a)
	return &c
}

func manager(euc bool, threshold int, v ...float64) *CM {
	a := centroidmanager.NewCentroidManagerArgs{InitVec: v, InitCap: 4, CentroidDPThreshold: threshold, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos}
	if euc {
		a.KNNSearchFunc, a.KFNSearchFunc = searchutils.KNNEuc, searchutils.KFNEuc
	}
	m, _ := centroidmanager.NewCentroidManager(a)
	return &m
}

// node starts a node on a free port.
func node(t *testing.T) (Addr, *kmrpc.KMeansServer) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	a := Addr{IP: "127.0.0.1", Port: fmt.Sprint(port)}
	s := kmrpc.NewKMeansServer(a.ToStr(), func(v []float64) *CM { return manager(false, 1000, v...) })
	if _, err := kmrpc.StartListen(s); err != nil {
		t.Fatal(err)
	}
	return a, s
}

func mean(dps []DP) []float64 {
	i := 0
	v, _ := mathutils.VecMean(func() ([]float64, bool) {
		i++
		if i > len(dps) {
			return nil, false
		}
		return dps[i-1].Vec, true
	})
	return v
}

func near(a, b []float64) bool {
	d, err := mathutils.EuclideanDistance(a, b)
	return err == nil && d < 1e-6
}

func names(dps []DP) string {
	s := ""
	for _, d := range dps {
		s += string(d.Payload) + " "
	}
	return s
}

func within(t *testing.T, d time.Duration, f func()) {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(d):
		t.Fatal("does not end")
	}
}

var _ = kmrpc.KMeansClient
