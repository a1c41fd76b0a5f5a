package rt

// Mutex etc. under the simulated scheduler.
type Mutex struct {
	locked bool
	q      WaitQ
}

func (m *Mutex) Lock() {
	if S == nil || S.cur == nil {
		m.locked = true
		return
	}
	Yield()
	for m.locked {
		m.q.Wait("mutex")
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if S == nil || S.cur == nil {
		m.locked = false
		return
	}
	Enter()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.WakeOne()
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
	q       WaitQ
}

func (m *RWMutex) Lock() {
	if S == nil || S.cur == nil {
		m.w = true
		return
	}
	Yield()
	m.waiting++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex")
	}
	m.waiting--
	m.w = true
}
func (m *RWMutex) Unlock() {
	if S == nil || S.cur == nil {
		m.w = false
		return
	}
	Enter()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.WakeAll()
}
func (m *RWMutex) RLock() {
	if S == nil || S.cur == nil {
		m.readers++
		return
	}
	Yield()
	for m.w || m.waiting > 0 {
		m.q.Wait("rwmutex read")
	}
	m.readers++
}
func (m *RWMutex) RUnlock() {
	if S == nil || S.cur == nil {
		m.readers--
		return
	}
	Enter()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.q.WakeAll()
}
func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w {
		return false
	}
	m.readers++
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return rlocker{m}
}

type WaitGroup struct {
	n int
	q WaitQ
}

func (w *WaitGroup) Add(d int) {
	Enter()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { Yield(); w.Add(-1) }
func (w *WaitGroup) Wait() {
	Yield()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Locker interface {
	Lock()
	Unlock()
}

type Cond struct {
	L Locker
	q WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	t := Enter()
	c.q.q = append(c.q.q, t)
	c.L.Unlock()
	t.block("cond")
	c.L.Lock()
}
func (c *Cond) Signal()    { Enter(); c.q.WakeOne() }
func (c *Cond) Broadcast() { Enter(); c.q.WakeAll() }

type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil && len(p.items) < 16 {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m     map[interface{}]interface{}
	order []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { Yield(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{}) {
	Yield()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	Yield()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.order = append(m.order, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	Yield()
	v, ok := m.m[k]
	m.Delete(k)
	return v, ok
}
func (m *Map) Delete(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.order {
			if x == k {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
	}
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	Yield()
	for _, k := range append([]interface{}(nil), m.order...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
