// Package amqp091 stands in for the AMQP client library in the checks: an in-process broker with the documented
// behaviour of what the rabbitmq plugin can use. Brokers are named by the address in the URL; addresses that start
// with "down" refuse connections.
package amqp091

import (
	"context"
	"errors"
	"net/url"
	"strings"
	"sync"
	"time"
)

var ErrClosed = errors.New("channel/connection is not open")

type Error struct {
	Code    int
	Reason  string
	Server  bool
	Recover bool
}

func (e Error) Error() string { return e.Reason }

type Table map[string]interface{}

type Queue struct {
	Name                string
	Messages, Consumers int
}

type Publishing struct {
	Headers                                                            Table
	ContentType, ContentEncoding                                       string
	DeliveryMode, Priority                                             uint8
	CorrelationId, ReplyTo, Expiration, MessageId, Type, UserId, AppId string
	Timestamp                                                          time.Time
	Body                                                               []byte
}

type Delivery struct {
	Headers                      Table
	ContentType, ContentEncoding string
	DeliveryTag                  uint64
	Redelivered                  bool
	Exchange, RoutingKey         string
	ConsumerTag                  string
	Body                         []byte
}

func (d Delivery) Ack(multiple bool) error           { return nil }
func (d Delivery) Nack(multiple, requeue bool) error { return nil }
func (d Delivery) Reject(requeue bool) error         { return nil }

// Broker is one server.
type Broker struct {
	mu    sync.Mutex
	qs    map[string]*queue
	conns []*Connection
}

type queue struct {
	backlog   []Delivery
	consumers []*consumer
	next      int
}

type consumer struct {
	in   []Delivery
	wake chan struct{}
	out  chan Delivery
	done chan struct{}
}

var (
	mu      sync.Mutex
	brokers = map[string]*Broker{}
)

// At is the broker at that address.
func At(addr string) *Broker {
	mu.Lock()
	defer mu.Unlock()
	b := brokers[addr]
	if b == nil {
		b = &Broker{qs: map[string]*queue{}}
		brokers[addr] = b
	}
	return b
}

// Forget drops the broker.
func Forget(addr string) { mu.Lock(); delete(brokers, addr); mu.Unlock() }

// Drop ends all connections, as a server that goes down.
func (b *Broker) Drop() {
	b.mu.Lock()
	conns := b.conns
	b.conns = nil
	b.mu.Unlock()
	for _, c := range conns {
		c.Close()
	}
}

// Inject puts a raw message into a queue.
func (b *Broker) Inject(q string, body []byte) { b.publish(q, Delivery{RoutingKey: q, Body: body}) }

func (b *Broker) publish(name string, d Delivery) {
	b.mu.Lock()
	defer b.mu.Unlock()
	q := b.qs[name]
	if q == nil {
		return // unroutable messages are dropped
	}
	if len(q.consumers) == 0 {
		q.backlog = append(q.backlog, d)
		return
	}
	c := q.consumers[q.next%len(q.consumers)]
	q.next++
	c.push(d)
}

func (c *consumer) push(d Delivery) {
	c.in = append(c.in, d)
	select {
	case c.wake <- struct{}{}:
	default:
	}
}

type Connection struct {
	b      *Broker
	mu     sync.Mutex
	closed bool
	chans  []*Channel
}

type Config struct{ Heartbeat time.Duration }

func Dial(u string) (*Connection, error) { return DialConfig(u, Config{}) }

func DialConfig(u string, _ Config) (*Connection, error) {
	x, err := url.Parse(u)
	if err != nil {
		return nil, err
	}
	if x.Scheme != "amqp" {
		return nil, errors.New("AMQP scheme must be either 'amqp://' or 'amqps://'")
	}
	if strings.HasPrefix(x.Host, "down") {
		return nil, errors.New("dial tcp: connection refused")
	}
	b := At(x.Host)
	c := &Connection{b: b}
	b.mu.Lock()
	b.conns = append(b.conns, c)
	b.mu.Unlock()
	return c, nil
}

func (c *Connection) IsClosed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }
func (c *Connection) Close() error {
	c.mu.Lock()
	if c.closed {
		c.mu.Unlock()
		return ErrClosed
	}
	c.closed = true
	chans := c.chans
	c.mu.Unlock()
	for _, ch := range chans {
		ch.Close()
	}
	return nil
}
func (c *Connection) NotifyClose(r chan *Error) chan *Error { return r }
func (c *Connection) Channel() (*Channel, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return nil, ErrClosed
	}
	ch := &Channel{c: c, b: c.b}
	c.chans = append(c.chans, ch)
	return ch, nil
}

type Channel struct {
	c         *Connection
	b         *Broker
	mu        sync.Mutex
	closed    bool
	consumers []*consumer
}

func (ch *Channel) isClosed() bool { ch.mu.Lock(); defer ch.mu.Unlock(); return ch.closed }
func (ch *Channel) IsClosed() bool { return ch.isClosed() }
func (ch *Channel) Close() error {
	ch.mu.Lock()
	if ch.closed {
		ch.mu.Unlock()
		return ErrClosed
	}
	ch.closed = true
	cs := ch.consumers
	ch.mu.Unlock()
	for _, c := range cs {
		close(c.done)
	}
	return nil
}
func (ch *Channel) NotifyClose(r chan *Error) chan *Error  { return r }
func (ch *Channel) Qos(count, size int, global bool) error { return nil }
func (ch *Channel) Confirm(noWait bool) error              { return nil }
func (ch *Channel) QueueDeclare(name string, durable, autoDelete, exclusive, noWait bool, args Table) (Queue, error) {
	if ch.isClosed() {
		return Queue{}, ErrClosed
	}
	ch.b.mu.Lock()
	defer ch.b.mu.Unlock()
	q := ch.b.qs[name]
	if q == nil {
		q = &queue{}
		ch.b.qs[name] = q
	}
	return Queue{Name: name, Messages: len(q.backlog), Consumers: len(q.consumers)}, nil
}
func (ch *Channel) Publish(exchange, key string, mandatory, immediate bool, msg Publishing) error {
	return ch.PublishWithContext(context.Background(), exchange, key, mandatory, immediate, msg)
}
func (ch *Channel) PublishWithContext(_ context.Context, exchange, key string, mandatory, immediate bool, msg Publishing) error {
	if ch.isClosed() {
		return ErrClosed
	}
	if exchange == "" {
		ch.b.publish(key, Delivery{RoutingKey: key, ContentType: msg.ContentType, Body: append([]byte(nil), msg.Body...)})
	}
	return nil
}
func (ch *Channel) Consume(name, tag string, autoAck, exclusive, noLocal, noWait bool, args Table) (<-chan Delivery, error) {
	return ch.ConsumeWithContext(context.Background(), name, tag, autoAck, exclusive, noLocal, noWait, args)
}
func (ch *Channel) ConsumeWithContext(_ context.Context, name, tag string, autoAck, exclusive, noLocal, noWait bool, args Table) (<-chan Delivery, error) {
	if ch.isClosed() {
		return nil, ErrClosed
	}
	ch.b.mu.Lock()
	defer ch.b.mu.Unlock()
	q := ch.b.qs[name]
	if q == nil {
		return nil, errors.New("NOT_FOUND - no queue")
	}
	c := &consumer{wake: make(chan struct{}, 1), out: make(chan Delivery), done: make(chan struct{})}
	q.consumers = append(q.consumers, c)
	for _, d := range q.backlog {
		c.push(d)
	}
	q.backlog = nil
	ch.mu.Lock()
	ch.consumers = append(ch.consumers, c)
	ch.mu.Unlock()
	go func() {
		defer close(c.out)
		for {
			ch.b.mu.Lock()
			var d *Delivery
			if len(c.in) > 0 {
				d = &c.in[0]
				c.in = c.in[1:]
			}
			ch.b.mu.Unlock()
			if d == nil {
				select {
				case <-c.wake:
					continue
				case <-c.done:
					return
				}
			}
			select {
			case c.out <- *d:
			case <-c.done:
				return
			}
		}
	}()
	return c.out, nil
}
func (ch *Channel) Get(name string, autoAck bool) (Delivery, bool, error) {
	if ch.isClosed() {
		return Delivery{}, false, ErrClosed
	}
	ch.b.mu.Lock()
	defer ch.b.mu.Unlock()
	q := ch.b.qs[name]
	if q == nil || len(q.backlog) == 0 {
		return Delivery{}, false, nil
	}
	d := q.backlog[0]
	q.backlog = q.backlog[1:]
	return d, true, nil
}
