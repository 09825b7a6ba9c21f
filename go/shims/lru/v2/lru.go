// Package lru is a stand-in for github.com/hashicorp/golang-lru/v2, which is
// not available offline: a thread-safe LRU cache with the same interface.
package lru

import (
	"container/list"
	"errors"
	"sync"
)

// Capacity can scale capacities down in simulations.
var Capacity = func(n int) int { return n }

// Between is called between the steps of an operation, outside of the lock.
var Between = func() {}

type entry[K comparable, V any] struct {
	key   K
	value V
}

type Cache[K comparable, V any] struct {
	lock  sync.RWMutex
	size  int
	list  *list.List
	items map[K]*list.Element
	evict func(K, V)
}

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	return NewWithEvict[K, V](size, nil)
}

func NewWithEvict[K comparable, V any](size int, onEvicted func(key K, value V)) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: Capacity(size), list: list.New(), items: map[K]*list.Element{}, evict: onEvicted}, nil
}

func (c *Cache[K, V]) add(key K, value V) (evicted bool, old *entry[K, V]) {
	if e, ok := c.items[key]; ok {
		c.list.MoveToFront(e)
		e.Value.(*entry[K, V]).value = value
		return false, nil
	}
	c.items[key] = c.list.PushFront(&entry[K, V]{key, value})
	if c.list.Len() > c.size {
		old := c.list.Back()
		c.list.Remove(old)
		ent := old.Value.(*entry[K, V])
		delete(c.items, ent.key)
		return true, ent
	}
	return false, nil
}

func (c *Cache[K, V]) Add(key K, value V) bool {
	Between()
	c.lock.Lock()
	ev, old := c.add(key, value)
	c.lock.Unlock()
	if ev && c.evict != nil {
		c.evict(old.key, old.value)
	}
	Between()
	return ev
}

func (c *Cache[K, V]) Get(key K) (value V, ok bool) {
	Between()
	c.lock.Lock()
	defer c.lock.Unlock()
	if e, ok := c.items[key]; ok {
		c.list.MoveToFront(e)
		return e.Value.(*entry[K, V]).value, true
	}
	return
}

func (c *Cache[K, V]) Peek(key K) (value V, ok bool) {
	c.lock.RLock()
	defer c.lock.RUnlock()
	if e, ok := c.items[key]; ok {
		return e.Value.(*entry[K, V]).value, true
	}
	return
}

func (c *Cache[K, V]) Contains(key K) bool {
	c.lock.RLock()
	defer c.lock.RUnlock()
	_, ok := c.items[key]
	return ok
}

func (c *Cache[K, V]) ContainsOrAdd(key K, value V) (ok, evicted bool) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if _, ok := c.items[key]; ok {
		return true, false
	}
	evicted, _ = c.add(key, value)
	return false, evicted
}

func (c *Cache[K, V]) PeekOrAdd(key K, value V) (previous V, ok, evicted bool) {
	c.lock.Lock()
	defer c.lock.Unlock()
	if e, ok := c.items[key]; ok {
		return e.Value.(*entry[K, V]).value, true, false
	}
	evicted, _ = c.add(key, value)
	return previous, false, evicted
}

func (c *Cache[K, V]) Remove(key K) bool {
	c.lock.Lock()
	defer c.lock.Unlock()
	if e, ok := c.items[key]; ok {
		c.list.Remove(e)
		delete(c.items, key)
		return true
	}
	return false
}

func (c *Cache[K, V]) Purge() {
	c.lock.Lock()
	defer c.lock.Unlock()
	c.list.Init()
	clear(c.items)
}

func (c *Cache[K, V]) Len() int {
	c.lock.RLock()
	defer c.lock.RUnlock()
	return c.list.Len()
}

func (c *Cache[K, V]) Keys() []K {
	c.lock.RLock()
	defer c.lock.RUnlock()
	var res []K
	for e := c.list.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value.(*entry[K, V]).key)
	}
	return res
}

func (c *Cache[K, V]) Values() []V {
	c.lock.RLock()
	defer c.lock.RUnlock()
	var res []V
	for e := c.list.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value.(*entry[K, V]).value)
	}
	return res
}
