package distclusverif

import (
	"sync"

	"github.com/wearelumenai/distclus/core"
)

// mock is a scripted implementation; its functions run in the go routines of the algorithm
type mock struct {
	mu    sync.Mutex
	iters int
	inits int

	init func(core.OCModel) (core.Clust, error)
	iter func(n int, model core.OCModel) (core.Clust, core.RuntimeFigures, error) // n counts from 1 since Init
	push func(core.Elemt, core.OCModel) error
	copy func(core.OCModel) (core.Impl, error)
}

func newMock() *mock { return &mock{} }

func (m *mock) Init(model core.OCModel) (core.Clust, error) {
	m.mu.Lock()
	m.iters = 0
	m.inits++
	m.mu.Unlock()
	if m.init == nil {
		return core.Clust{}, nil
	}
	return m.init(model)
}

func (m *mock) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	m.mu.Lock()
	m.iters++
	n := m.iters
	m.mu.Unlock()
	return m.iter(n, model)
}

func (m *mock) Push(e core.Elemt, model core.OCModel) error {
	if m.push == nil {
		return nil
	}
	return m.push(e, model)
}

func (m *mock) Copy(model core.OCModel) (core.Impl, error) {
	if m.copy == nil {
		return m, nil
	}
	return m.copy(model)
}
