From b59f48db468835f6ec963bef0d8ef846a0c8ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 01/61] fix: constant fluxes and monos signal their end

flux.Error, mono.Error and mono.Just never called Finally, so blocking on
a mapped flux.Error waited forever, and flux.Error had no subscription, so
an operation returning it crashed the engine that asked it for items.
---
 go/rx/flux/flux.go | 12 +++++++++++-
 go/rx/mono/mono.go |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 864f7e5..a0143ba 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -61,9 +64,16 @@ func (e errorFlow[T]) Block(_ Subscribe[T]) error {
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return endedSubscription{}
 }
 
+// endedSubscription is the subscription of a flux that
+// has no items to request or cancel.
+type endedSubscription struct{}
+
+func (endedSubscription) Request(n int) {}
+func (endedSubscription) Cancel()       {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 7a008f872bd2403cfc615a14e1bd38d74a84fea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/61] fix: a flux ends once, whoever ends it, and tells
 everyone

Cancelling after the end, or twice, reached the source and Finally again
(a blocked caller then panicked on a closed channel); cancelling never
fired notifications nor recorded its signal; notifications and demand
were lost to races between the emitting and the subscribing goroutine;
Block on a flux that was not subscribed yet dereferenced nil; demand could
reach the source after the end.
---
 go/rx/flux/flux.go             | 70 ++++++++++++++++++++++------------
 go/rx/flux/flux_host.go        | 12 ++++--
 go/rx/flux/flux_webassembly.go |  4 +-
 3 files changed, 57 insertions(+), 29 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index a0143ba..9ddb3a5 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -1,6 +1,9 @@
 package flux
 
 import (
+	"sync"
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -83,7 +86,9 @@ func Create[T any](source Source[T]) Flux[T] {
 type flux[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
-	callbacks  []rx.FnFinally
+
+	stateMu   sync.Mutex // Guards callbacks and how the subscriber ended.
+	callbacks []rx.FnFinally
 }
 
 func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
@@ -96,7 +101,9 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.stateMu.Lock()
 	f.subscriber = &s
+	f.stateMu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
@@ -109,18 +116,23 @@ func (f *flux[T]) Subscription() rx.Subscription {
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
-	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+	f.stateMu.Lock()
+	if f.subscriber != nil && f.subscriber.ended {
+		signal := f.subscriber.signal
+		f.stateMu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.stateMu.Unlock()
 }
 
 type subscriber[T any] struct {
-	closed    bool
-	n         int
+	n         int64 // Accessed atomically: outstanding demand.
+	closed    int32 // Accessed atomically: only one end signal wins.
 	err       error
 	sub       OnSubscribe
+	ended     bool
 	signal    rx.SignalType
 	f         *flux[T]
 	noRequest bool
@@ -135,24 +147,23 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
-	if s.closed {
+	if s.isClosed() {
 		return
 	}
-	s.n--
+	atomic.AddInt64(&s.n, -1)
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	if atomic.LoadInt64(&s.n) == 0 && !s.isClosed() {
 		s.handleOnSubscribe()
 	}
 }
 
 func (s *subscriber[T]) Complete() {
-	if s.closed {
+	if !s.close() {
 		return
 	}
-	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -160,11 +171,10 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close() {
 		return
 	}
 	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -172,22 +182,36 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
+	s.f.stateMu.Lock()
+	s.ended = true
 	s.signal = signal
+	callbacks := s.f.callbacks
+	s.f.callbacks = nil
+	s.f.stateMu.Unlock()
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
+func (s *subscriber[T]) isClosed() bool {
+	return atomic.LoadInt32(&s.closed) != 0
+}
+
+// close reports whether this call is the one that closed the subscriber.
+func (s *subscriber[T]) close() bool {
+	return atomic.CompareAndSwapInt32(&s.closed, 0, 1)
+}
+
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
-	if s.closed {
+	if s.isClosed() {
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	if n := atomic.LoadInt64(&s.n); n > 0 {
+		s.doRequest(int(n))
 	}
 }
 
@@ -203,24 +227,20 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
-	s.n += n
+	atomic.AddInt64(&s.n, int64(n))
 	if s.sub.Request != nil {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	s.closed = true
+	if !s.close() {
+		return
+	}
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
-}
-
-func (s *subscriber[T]) Close() {
-	s.closed = true
+	s.finally(rx.SignalCancel)
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index bdf98f5..72ee725 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -21,13 +21,19 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		if !s.isClosed() {
+			s.sub.Request(n)
+		}
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.stateMu.Lock()
+	subscriber := f.subscriber
+	ended := subscriber != nil && subscriber.ended
+	f.stateMu.Unlock()
+	if ended {
+		return subscriber.err
 	}
 
 	return Block(Flux[T](f), sub)
diff --git a/go/rx/flux/flux_webassembly.go b/go/rx/flux/flux_webassembly.go
index 08ca2f7..6c3dc0e 100644
--- a/go/rx/flux/flux_webassembly.go
+++ b/go/rx/flux/flux_webassembly.go
@@ -9,5 +9,7 @@ type Blockable[T any] interface {
 type mutex struct{}
 
 func (s *subscriber[T]) doRequest(n int) {
-	s.sub.Request(n)
+	if !s.isClosed() {
+		s.sub.Request(n)
+	}
 }
-- 
2.43.0


From 8ded3b5570e7ccc2c23f7820c96bffb87f5f35b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 03/61] fix: a failing flux transformation ends the mapped flux

After the transformation failed, later items, completion and a second
Finally were still delivered, because the attempt to close the original
flux never matched any type. The error now ends the subscription, cancels
the source and is reported once, also to notifications.
---
 go/rx/flux/flux.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 9ddb3a5..344f890 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -243,6 +243,27 @@ func (s *subscriber[T]) Cancel() {
 	s.finally(rx.SignalCancel)
 }
 
+// failable is a subscription that its subscriber can end with an error.
+type failable interface {
+	fail(error)
+}
+
+// fail ends the subscription with an error on the subscriber's side:
+// the source is cancelled and the subscriber sees the error.
+func (s *subscriber[T]) fail(err error) {
+	if !s.close() {
+		return
+	}
+	if s.sub.Cancel != nil {
+		s.sub.Cancel()
+	}
+	s.err = err
+	if s.doOnError != nil {
+		s.doOnError(err)
+	}
+	s.finally(rx.SignalError)
+}
+
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
 	return mapper[S, D]{
 		f:  f,
@@ -255,22 +276,12 @@ type mapper[S, D any] struct {
 	tx rx.Transform[S, D]
 }
 
-type closable[T any] interface {
-	Close()
-}
-
 func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
-				if sub.OnError != nil {
-					sub.OnError(err)
-				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+				if f, ok := m.f.Subscription().(failable); ok {
+					f.fail(err)
 				}
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
-- 
2.43.0


From 8ffda37f107e7897c50a2549ed197699f1539659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 04/61] fix: SliceResponse repeated items when more were
 requested while sending

In WebAssembly demand is passed on synchronously, so a subscriber asking
for its next page from the last item of a page got the same page again,
without end.
---
 go/rx/flux/response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/rx/flux/response.go b/go/rx/flux/response.go
index 739f81f..b4390b5 100644
--- a/go/rx/flux/response.go
+++ b/go/rx/flux/response.go
@@ -6,10 +6,12 @@ func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
 		if n < num {
 			num = n
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
+		// Advance first: sending an item can request more.
+		batch := slice[:num]
 		slice = slice[num:]
+		for _, item := range batch {
+			sink.Next(item)
+		}
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From 4fb7320e530c5f50d20f23948bace2e604507b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 05/61] fix: a mono resolves once and can be waited for in any
 way

Blocking on a mono that was already subscribed ran its source a second
time (for a proxied request: sent the request again); a notification
registered while the outcome arrived could be lost; Get before Subscribe
dereferenced nil.
---
 go/rx/mono/mono.go      | 46 ++++++++++++++++++++++++++++------------
 go/rx/mono/mono_host.go | 47 +++++++++++++----------------------------
 2 files changed, 48 insertions(+), 45 deletions(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 047ccc6..dd388b4 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -1,6 +1,9 @@
 package mono
 
 import (
+	"sync"
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 )
 
@@ -107,7 +110,9 @@ func Create[T any](source Source[T]) Mono[T] {
 type mono[T any] struct {
 	source     Source[T]
 	subscriber *subscriber[T]
-	callbacks  []rx.FnFinally
+
+	stateMu   sync.Mutex // Guards callbacks and how the subscriber ended.
+	callbacks []rx.FnFinally
 }
 
 func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
@@ -118,7 +123,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.stateMu.Lock()
 	m.subscriber = &wrapper
+	m.stateMu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -132,23 +139,29 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
-	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+	m.stateMu.Lock()
+	if m.subscriber != nil && m.subscriber.ended {
+		signal := m.subscriber.signal
+		m.stateMu.Unlock()
+		fn(signal)
 		return
 	}
-
 	m.callbacks = append(m.callbacks, fn)
+	m.stateMu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
-	if !m.subscriber.closed {
+	m.stateMu.Lock()
+	defer m.stateMu.Unlock()
+	if m.subscriber == nil || !m.subscriber.ended {
 		panic("mono: Get called before completion")
 	}
 	return m.subscriber.value, m.subscriber.err
 }
 
 type subscriber[T any] struct {
-	closed bool
+	closed int32 // Accessed atomically: only one outcome wins.
+	ended  bool
 	value  T
 	err    error
 	signal rx.SignalType
@@ -161,11 +174,10 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Success(value T) {
-	if s.closed {
+	if !s.close() {
 		return
 	}
 	s.value = value
-	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -173,11 +185,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close() {
 		return
 	}
 	s.err = err
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -185,20 +196,29 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
+	s.m.stateMu.Lock()
+	s.ended = true
 	s.signal = signal
+	callbacks := s.m.callbacks
+	s.m.callbacks = nil
+	s.m.stateMu.Unlock()
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
+// close reports whether this call is the one that decided the outcome.
+func (s *subscriber[T]) close() bool {
+	return atomic.CompareAndSwapInt32(&s.closed, 0, 1)
+}
+
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	if !s.close() {
 		return
 	}
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 72e0c0d..5a7a90c 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -3,48 +3,31 @@
 
 package mono
 
+import "github.com/nanobus/iota/go/rx"
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
-	}
+	s.stateMu.Lock()
+	subscribed := s.subscriber != nil
+	s.stateMu.Unlock()
 
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(Subscribe[T]{
-			OnSuccess: func(value T) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) { close(done) })
+	if !subscribed {
+		go s.Subscribe(Subscribe[T]{})
+	}
 
 	<-done
-	return ret, err
+	return s.Get()
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	return b.tx(value)
 }
-- 
2.43.0


From 42357045f970c0d7ce6357f0dbfc0ecbd0ef1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 06/61] fix: a failing mono transformation finishes with the
 error signal

Finally was told the mono completed although its subscriber got an error.
---
 go/rx/mono/mono.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index dd388b4..ae86473 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -235,10 +235,12 @@ type mapper[S any, D any] struct {
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
 			converted, err := b.tx(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -250,7 +252,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
-- 
2.43.0


From a1884ecf98bd8facd1914907fe3234c245e65b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 07/61] fix: a mono processor keeps the first outcome it is
 given

Before anyone subscribed, a later success replaced an earlier error or
success.
---
 go/rx/mono/processor.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index a7bb35d..004bfd8 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -1,5 +1,7 @@
 package mono
 
+import "sync"
+
 type Processor[T any] interface {
 	Mono[T]
 	Sink[T]
@@ -7,6 +9,7 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      sync.Mutex // Guards the sink and the outcome kept for it.
 	sink    Sink[T]
 	success *T
 	err     error
@@ -15,11 +18,14 @@ type ProcessorImpl[T any] struct {
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		success, err := p.success, p.err
+		p.mu.Unlock()
+		if success != nil {
+			sink.Success(*success)
+		} else if err != nil {
+			sink.Error(err)
 		}
 	})
 
@@ -27,17 +33,24 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else {
-		p.success = &value
+	if sink := p.settle(&value, nil); sink != nil {
+		sink.Success(value)
 	}
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else {
-		p.err = err
+	if sink := p.settle(nil, err); sink != nil {
+		sink.Error(err)
+	}
+}
+
+// settle returns the sink to deliver the outcome to. Without one,
+// the first outcome is kept for the subscriber to come.
+func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	if p.sink == nil && p.success == nil && p.err == nil {
+		p.success, p.err = success, err
 	}
+	return p.sink
 }
-- 
2.43.0


From 3b99cdf8ca174a70a6ee3d1d0295da582a2f4d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 08/61] fix: awaiting an unsubscribed mono or flux runs it

Async promised to make sure the task is running but did nothing, so a
flow step waiting for such a mono or flux waited forever.
---
 go/rx/flux/flux.go      | 11 ++++++++++-
 go/rx/mono/mono.go      | 16 +++++++++++-----
 go/rx/mono/mono_host.go |  8 +-------
 3 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 344f890..5224dcf 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -113,7 +113,16 @@ func (f *flux[T]) Subscription() rx.Subscription {
 	return f.subscriber
 }
 
-func (f *flux[T]) Async() {}
+func (f *flux[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	f.stateMu.Lock()
+	subscribed := f.subscriber != nil
+	f.stateMu.Unlock()
+	if !subscribed {
+		f.Subscribe(Subscribe[T]{})
+	}
+}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	f.stateMu.Lock()
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index ae86473..6c3b4c4 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -131,14 +131,20 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 }
 
 func (m *mono[T]) Async() {
+	// If treated like an awaitable and not subscribed,
+	// then subscribe without callbacks.
+	if !m.subscribed() {
+		m.Subscribe(Subscribe[T]{})
+	}
+}
+
+func (m *mono[T]) subscribed() bool {
+	m.stateMu.Lock()
+	defer m.stateMu.Unlock()
+	return m.subscriber != nil
 }
 
 func (m *mono[T]) Notify(fn rx.FnFinally) {
-	// if m.subscriber == nil {
-	// 	wrapper := subscriber[T]{}
-	// 	m.subscriber = &wrapper
-	// 	m.source(&wrapper)
-	// }
 	m.stateMu.Lock()
 	if m.subscriber != nil && m.subscriber.ended {
 		signal := m.subscriber.signal
diff --git a/go/rx/mono/mono_host.go b/go/rx/mono/mono_host.go
index 5a7a90c..d6b3e45 100644
--- a/go/rx/mono/mono_host.go
+++ b/go/rx/mono/mono_host.go
@@ -10,15 +10,9 @@ type Blockable[T any] interface {
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	s.stateMu.Lock()
-	subscribed := s.subscriber != nil
-	s.stateMu.Unlock()
-
 	done := make(chan struct{})
 	s.Notify(func(rx.SignalType) { close(done) })
-	if !subscribed {
-		go s.Subscribe(Subscribe[T]{})
-	}
+	s.Async()
 
 	<-done
 	return s.Get()
-- 
2.43.0


From 3fb9fcb6b213515d0448610a98df2b09d8bc6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 09/61] fix: flow steps run once, after all they wait for

A step whose awaited items had already ended ran again and again, since
the flow advanced only after registering for them; counting the ended
items was not synchronised.
---
 go/rx/flow/flow.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index 874f617..ecbe4ac 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,7 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -89,8 +89,8 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.completed = 0
 	step := f.steps[0]
+	f.steps = f.steps[1:]
 	awaitables, err := step()
 	if err != nil {
 		if f.monoSink != nil {
@@ -105,18 +105,15 @@ func (f *Flow[T]) next() {
 		return
 	}
 
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
+	// The next step runs once all of them have ended.
+	// They may end right now or on other goroutines.
+	remaining := int32(len(awaitables))
+	for _, a := range awaitables {
 		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
-	f.steps = f.steps[1:]
-}
-
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+		a.Notify(func(rx.SignalType) {
+			if atomic.AddInt32(&remaining, -1) == 0 {
+				f.next()
+			}
+		})
 	}
 }
-- 
2.43.0


From 8aa33355ed78cb8af53e5bf8128dfa521ee5e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 10/61] fix: the stream table forgets removed streams and is
 safe to share

Removing the first stream in the table left it there, so it was found
and sent to after its end; lookups raced with changes; a stream added
twice stayed after its removal.
---
 go/proxy/lookup.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index 3dddd04..d303f76 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -16,6 +16,9 @@ type (
 )
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -27,6 +30,11 @@ func (l *Lookup) Add(s Stream) {
 	l.mu.Lock()
 	defer l.mu.Unlock()
 
+	if n := l.find(s.StreamID()); n != nil {
+		n.stream = s
+		return
+	}
+
 	newNode := &node{
 		stream: s,
 	}
@@ -58,9 +66,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From 3c5cd2386734a30c09f9883835da013a08501a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 11/61] fix: waiting for a mono or flux from several goroutines
 runs it once

---
 go/rx/flux/flux.go |  7 +++++--
 go/rx/mono/mono.go | 14 +++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/go/rx/flux/flux.go b/go/rx/flux/flux.go
index 5224dcf..58346a9 100644
--- a/go/rx/flux/flux.go
+++ b/go/rx/flux/flux.go
@@ -89,6 +89,7 @@ type flux[T any] struct {
 
 	stateMu   sync.Mutex // Guards callbacks and how the subscriber ended.
 	callbacks []rx.FnFinally
+	started   bool
 }
 
 func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
@@ -102,6 +103,7 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		noRequest:    sub.NoRequest,
 	}
 	f.stateMu.Lock()
+	f.started = true
 	f.subscriber = &s
 	f.stateMu.Unlock()
 	f.source(&s)
@@ -117,9 +119,10 @@ func (f *flux[T]) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
 	f.stateMu.Lock()
-	subscribed := f.subscriber != nil
+	started := f.started
+	f.started = true
 	f.stateMu.Unlock()
-	if !subscribed {
+	if !started {
 		f.Subscribe(Subscribe[T]{})
 	}
 }
diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 6c3b4c4..68337bd 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -113,6 +113,7 @@ type mono[T any] struct {
 
 	stateMu   sync.Mutex // Guards callbacks and how the subscriber ended.
 	callbacks []rx.FnFinally
+	started   bool
 }
 
 func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
@@ -124,6 +125,7 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doFinally:     sub.Finally,
 	}
 	m.stateMu.Lock()
+	m.started = true
 	m.subscriber = &wrapper
 	m.stateMu.Unlock()
 	m.source(&wrapper)
@@ -133,17 +135,15 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 func (m *mono[T]) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !m.subscribed() {
+	m.stateMu.Lock()
+	started := m.started
+	m.started = true
+	m.stateMu.Unlock()
+	if !started {
 		m.Subscribe(Subscribe[T]{})
 	}
 }
 
-func (m *mono[T]) subscribed() bool {
-	m.stateMu.Lock()
-	defer m.stateMu.Unlock()
-	return m.subscriber != nil
-}
-
 func (m *mono[T]) Notify(fn rx.FnFinally) {
 	m.stateMu.Lock()
 	if m.subscriber != nil && m.subscriber.ended {
-- 
2.43.0


From e210cccf2df26095a7ebed57cc2ee0e73671eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 12/61] fix: streams keep demand, input and cancels whenever
 they arrive

A request-n, cancel, payload or error frame that arrived before the handler
returned, before its input was subscribed or after the stream ended crashed
the process, was lost or closed the connection. Cancelling completed the
input instead of stopping the producer, either direction of a channel ended
the other, and streams were never forgotten. A request whose frame could not
be sent left its requester waiting; blocking sent a mono's request again.
---
 go/handler/caller.go                 |   6 +-
 go/handler/handler.go                | 163 +++-------------
 go/proxy/flux.go                     | 242 +++++++++++++++++++-----
 go/proxy/flux_host.go                |  13 ++
 go/proxy/mono.go                     |  30 ++-
 go/proxy/mono_host.go                |  22 +--
 go/proxy/responder.go                | 268 +++++++++++++++++++++++++++
 go/proxy/stream.go                   |   1 +
 go/transport/wasmrs/guest/caller.go  |   6 +-
 go/transport/wasmrs/guest/guest.go   | 157 +++-------------
 go/transport/wasmrs/host/caller.go   |   6 +-
 go/transport/wasmrs/host/instance.go | 147 +++------------
 12 files changed, 590 insertions(+), 471 deletions(-)
 create mode 100644 go/proxy/flux_host.go
 create mode 100644 go/proxy/responder.go

diff --git a/go/handler/caller.go b/go/handler/caller.go
index ffe3524..091a586 100644
--- a/go/handler/caller.go
+++ b/go/handler/caller.go
@@ -38,7 +38,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -59,7 +59,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -69,7 +69,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/go/handler/handler.go b/go/handler/handler.go
index d0ed8ea..6fe9a60 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,15 +4,12 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -112,10 +109,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream already ended or never existed.
 			return
 		}
 	}
@@ -146,7 +140,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Registered before the handler runs: frames for the stream can follow.
+			s := proxy.NewResponder(i.ctx, streamID, i.SendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -154,16 +151,19 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Registered before the handler runs: frames for the stream can follow.
+			s := proxy.NewChannelResponder(i.ctx, streamID, i.SendFrame, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestChannel(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		str.OnCancel()
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -217,13 +217,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
 		}
 
 	case *frames.Error:
 		str.OnError(errors.New(v.Data))
-		str.OnComplete()
-		i.removeStream(streamID)
 	}
 
 	return nil
@@ -245,8 +242,8 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, i.SendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -282,20 +279,22 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, i.SendFrame, i.removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -304,46 +303,20 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p), initialN)
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		i.removeStream(streamID)
 		i.sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -352,51 +325,7 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p, s.Input()), initialN)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -675,41 +604,3 @@ func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 6f0f588..3eb25a5 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,7 +19,8 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
-		first:     true,
+		remove:    remove,
+		inDone:    in == nil,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -31,13 +33,20 @@ type streamFlux struct {
 	ctx context.Context
 	flux.Processor[payload.Payload]
 
+	request   frames.RequestPayload
+	in        flux.Flux[payload.Payload]
+	sendFrame func(frames.Frame) error
+	register  func(Stream)
+	remove    func(streamID uint32)
+
+	mu         sync.Mutex // Guards the fields below.
 	subscribed bool
-	request    frames.RequestPayload
-	in         flux.Flux[payload.Payload]
-	sendFrame  func(frames.Frame) error
-	register   func(Stream)
-	first      bool
-	complete   bool
+	requested  bool            // Sending of the request began.
+	opened     bool            // The request was sent.
+	outDone    bool            // The response ended or was cancelled.
+	inDone     bool            // The input ended or is not wanted any more.
+	inSub      rx.Subscription // nil until the input is subscribed.
+	inCredit   int             // Demand for input received before that.
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,18 +62,33 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
-	s.Processor.Complete()
-	s.complete = true
+	if s.endOutput() {
+		s.Processor.Complete()
+	}
 }
 
+// OnError ends the stream, which no longer has any direction afterwards.
 func (s *streamFlux) OnError(err error) {
-	s.Processor.Error(err)
+	s.cancelInput()
+	if s.endOutput() {
+		s.Processor.Error(err)
+	}
+}
+
+// OnCancel handles that the responder does not want the input any more.
+func (s *streamFlux) OnCancel() {
+	s.cancelInput()
+	s.removeIfDone()
 }
 
 func (s *streamFlux) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(flux.Subscribe[payload.Payload]{})
 	}
 }
@@ -74,61 +98,185 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
-	if s.complete {
+	s.mu.Lock()
+	if s.outDone {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
-		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
-
-		if s.in != nil {
-			s.in.Subscribe(flux.Subscribe[payload.Payload]{
-				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Metadata: p.Metadata(),
-						Data:     p.Data(),
-						Next:     true,
-					})
-				},
-				OnComplete: func() {
-					s.sendFrame(&frames.Payload{
-						StreamID: s.request.StreamID,
-						Complete: true,
-					})
-				},
-				OnError: func(err error) {
-					s.sendFrame(&frames.Error{
-						StreamID: s.request.StreamID,
-						Data:     err.Error(),
-					})
-				},
-				NoRequest: true,
-			})
-		}
-	} else {
+	first := !s.requested
+	s.requested = true
+	s.mu.Unlock()
+
+	if !first {
 		s.sendFrame(&frames.RequestN{
 			StreamID: s.request.StreamID,
 			N:        uint32(n),
 		})
+		return
+	}
+
+	s.request.InitialN = uint32(n)
+	s.register(s)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+		return
+	}
+
+	s.mu.Lock()
+	s.opened = true
+	cancelled := s.outDone
+	s.mu.Unlock()
+	if cancelled {
+		s.sendCancel()
 	}
+	s.subscribeInput()
 }
 
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	if s.outDone {
+		s.mu.Unlock()
+		return
+	}
+	s.outDone = true
+	opened := s.opened
+	s.mu.Unlock()
+	// Before the request was sent there is nothing to cancel.
+	if opened {
+		s.sendCancel()
+	}
+	s.removeIfDone()
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
+func (s *streamFlux) subscribeInput() {
+	s.mu.Lock()
+	done := s.inDone
+	s.mu.Unlock()
+	if done {
+		return
+	}
+
+	s.in.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			s.mu.Lock()
+			done := s.inDone
+			s.mu.Unlock()
+			if done {
+				return
+			}
+			err := s.sendFrame(&frames.Payload{
+				StreamID: s.request.StreamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+			if err != nil && s.cancelInput() {
+				s.sendError(err)
+			}
+		},
+		OnComplete: func() {
+			if s.endInput() {
+				s.sendFrame(&frames.Payload{
+					StreamID: s.request.StreamID,
+					Complete: true,
+				})
+				s.removeIfDone()
+			}
+		},
+		OnError: func(err error) {
+			if s.endInput() {
+				s.sendError(err)
+			}
+		},
+		NoRequest: true,
+	})
+
+	inSub := s.in.Subscription()
+	s.mu.Lock()
+	s.inSub = inSub
+	credit := s.inCredit
+	done = s.inDone
+	s.mu.Unlock()
+	if done {
+		inSub.Cancel()
+	} else if credit > 0 {
+		inSub.Request(credit)
+	}
+}
+
+func (s *streamFlux) sendError(err error) {
+	s.sendFrame(&frames.Error{
+		StreamID: s.request.StreamID,
+		Data:     err.Error(),
+	})
+	s.removeIfDone()
+}
+
+// DoRequest handles demand for the input.
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	s.mu.Lock()
+	inSub := s.inSub
+	if inSub == nil {
+		s.inCredit += n
+	}
+	s.mu.Unlock()
+	if inSub != nil {
+		inSub.Request(n)
+	}
+}
+
+// endOutput reports whether this call is the one that ended the output.
+func (s *streamFlux) endOutput() bool {
+	s.mu.Lock()
+	ended := !s.outDone
+	s.outDone = true
+	s.mu.Unlock()
+	s.removeIfDone()
+	return ended
+}
+
+// endInput reports whether this call is the one that ended the input.
+func (s *streamFlux) endInput() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	ended := !s.inDone
+	s.inDone = true
+	return ended
+}
+
+// cancelInput ends the input, if it has not ended, and stops its source.
+func (s *streamFlux) cancelInput() bool {
+	if !s.endInput() {
+		return false
+	}
+	s.mu.Lock()
+	inSub := s.inSub
+	s.mu.Unlock()
+	if inSub != nil {
+		inSub.Cancel()
+	}
+	return true
+}
+
+func (s *streamFlux) removeIfDone() {
+	s.mu.Lock()
+	done := s.outDone && s.inDone
+	s.mu.Unlock()
+	if done {
+		s.remove(s.request.StreamID)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
 	s.Processor.Subscribe(sub)
 	return s
 }
diff --git a/go/proxy/flux_host.go b/go/proxy/flux_host.go
new file mode 100644
index 0000000..f5c2b3a
--- /dev/null
+++ b/go/proxy/flux_host.go
@@ -0,0 +1,13 @@
+//go:build !purego && !appengine && !wasm && !tinygo.wasm && !wasi
+// +build !purego,!appengine,!wasm,!tinygo.wasm,!wasi
+
+package proxy
+
+import (
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+func (s *streamFlux) Block(sub flux.Subscribe[payload.Payload]) error {
+	return flux.Block[payload.Payload](s, sub)
+}
diff --git a/go/proxy/mono.go b/go/proxy/mono.go
index 793a2a6..3f66aea 100644
--- a/go/proxy/mono.go
+++ b/go/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +18,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -25,10 +27,12 @@ type streamMono struct {
 	ctx context.Context
 	mono.Processor[payload.Payload]
 
+	mu         sync.Mutex // Guards subscribed.
 	subscribed bool
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -40,21 +44,33 @@ func (s *streamMono) StreamID() uint32 {
 }
 
 func (s *streamMono) OnNext(p payload.Payload) {
+	s.remove(s.request.StreamID)
 	s.Processor.Success(p)
 }
 
+// OnComplete without a value before it is an empty response.
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	s.remove(s.request.StreamID)
+	s.Processor.Success(payload.New(nil))
 }
 
 func (s *streamMono) OnError(err error) {
+	s.remove(s.request.StreamID)
 	s.Processor.Error(err)
 }
 
+func (s *streamMono) OnCancel() {
+	// The request has no input to cancel.
+}
+
 func (s *streamMono) Async() {
 	// If treated like an awaitable and not subscribed,
 	// then subscribe without callbacks.
-	if !s.subscribed {
+	s.mu.Lock()
+	subscribed := s.subscribed
+	s.subscribed = true
+	s.mu.Unlock()
+	if !subscribed {
 		s.Subscribe(mono.Subscribe[payload.Payload]{})
 	}
 }
@@ -64,9 +80,13 @@ func (s *streamMono) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[payload.Payload] {
+	s.mu.Lock()
 	s.subscribed = true
-	s.register(s)
+	s.mu.Unlock()
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	s.register(s)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/go/proxy/mono_host.go b/go/proxy/mono_host.go
index 927c78b..51d1954 100644
--- a/go/proxy/mono_host.go
+++ b/go/proxy/mono_host.go
@@ -5,28 +5,14 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
-	"github.com/nanobus/iota/go/rx/mono"
+	"github.com/nanobus/iota/go/rx"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
-	// if s.subscriber != nil && s.subscriber.closed {
-	// 	return s.subscriber.value, s.subscriber.err
-	// }
-
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(mono.Subscribe[payload.Payload]{
-			OnSuccess: func(value payload.Payload) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
+	s.Notify(func(rx.SignalType) { close(done) })
+	s.Async()
 
 	<-done
-	return ret, err
+	return s.Get()
 }
diff --git a/go/proxy/responder.go b/go/proxy/responder.go
new file mode 100644
index 0000000..dafa99e
--- /dev/null
+++ b/go/proxy/responder.go
@@ -0,0 +1,268 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/internal/frames"
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// Responder is the answering side of a request. It connects the frames
+// of a stream with the response of its handler and, for channels, with
+// the input the handler reads. Frames can arrive at any moment, also
+// before the handler has returned or has subscribed to its input.
+type Responder struct {
+	ctx       context.Context
+	streamID  uint32
+	sendFrame func(frames.Frame) error
+	remove    func(streamID uint32)
+
+	mu        sync.Mutex
+	response  rx.Subscription // nil until the handler's response is subscribed.
+	credit    int             // Demand received before that.
+	cancelled bool            // The requester does not want the response any more.
+	outDone   bool            // The response ended or was cancelled.
+	inDone    bool            // The input ended or is not wanted any more.
+	sink      flux.Sink[payload.Payload]
+	input     []func(flux.Sink[payload.Payload]) // Signals the sink has not seen.
+	draining  bool
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder creates the answering side of a request that has no input.
+func NewResponder(ctx context.Context, streamID uint32, sendFrame func(frames.Frame) error, remove func(streamID uint32)) *Responder {
+	return &Responder{
+		ctx:       ctx,
+		streamID:  streamID,
+		sendFrame: sendFrame,
+		remove:    remove,
+		inDone:    true,
+	}
+}
+
+// NewChannelResponder creates the answering side of a request channel.
+func NewChannelResponder(ctx context.Context, streamID uint32, sendFrame func(frames.Frame) error, remove func(streamID uint32)) *Responder {
+	r := NewResponder(ctx, streamID, sendFrame, remove)
+	r.inDone = false
+	return r
+}
+
+func (r *Responder) Context() context.Context {
+	return r.ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+// Input is what the requester sends on a channel.
+func (r *Responder) Input() flux.Flux[payload.Payload] {
+	return flux.Create(func(sink flux.Sink[payload.Payload]) {
+		sink.OnSubscribe(flux.OnSubscribe{
+			Request: func(n int) {
+				r.sendFrame(&frames.RequestN{
+					StreamID: r.streamID,
+					N:        uint32(n),
+				})
+			},
+			Cancel: func() {
+				r.mu.Lock()
+				r.inDone = true
+				r.mu.Unlock()
+				r.sendFrame(&frames.Cancel{
+					StreamID: r.streamID,
+				})
+				r.removeIfDone()
+			},
+		})
+		r.mu.Lock()
+		r.sink = sink
+		r.mu.Unlock()
+		r.drain()
+	})
+}
+
+// Respond sends the items and the end of the handler's response as frames.
+func (r *Responder) Respond(f flux.Flux[payload.Payload], initialN uint32) {
+	r.mu.Lock()
+	cancelled := r.cancelled
+	r.mu.Unlock()
+	if cancelled {
+		return
+	}
+
+	f.Subscribe(flux.Subscribe[payload.Payload]{
+		OnNext: func(p payload.Payload) {
+			r.mu.Lock()
+			done := r.outDone
+			r.mu.Unlock()
+			if done {
+				return
+			}
+			err := r.sendFrame(&frames.Payload{
+				StreamID: r.streamID,
+				Metadata: p.Metadata(),
+				Data:     p.Data(),
+				Next:     true,
+			})
+			if err != nil {
+				r.fail(err)
+			}
+		},
+		OnComplete: func() {
+			if r.endOutput() {
+				r.sendFrame(&frames.Payload{
+					StreamID: r.streamID,
+					Complete: true,
+				})
+				r.removeIfDone()
+			}
+		},
+		OnError: func(err error) {
+			if r.endOutput() {
+				r.sendError(err)
+			}
+		},
+		NoRequest: true,
+	})
+
+	response := f.Subscription()
+	r.mu.Lock()
+	r.response = response
+	credit := r.credit + int(initialN)
+	cancelled = r.cancelled
+	r.mu.Unlock()
+	if cancelled {
+		response.Cancel()
+	} else {
+		response.Request(credit)
+	}
+}
+
+// DoRequest handles demand from the requester.
+func (r *Responder) DoRequest(n int) {
+	r.mu.Lock()
+	response := r.response
+	if response == nil {
+		r.credit += n
+	}
+	r.mu.Unlock()
+	if response != nil {
+		response.Request(n)
+	}
+}
+
+// OnCancel handles that the requester does not want the response any more.
+func (r *Responder) OnCancel() {
+	if r.cancelOutput() {
+		r.removeIfDone()
+	}
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	r.deliver(false, func(sink flux.Sink[payload.Payload]) {
+		sink.Next(p)
+	})
+}
+
+func (r *Responder) OnComplete() {
+	r.deliver(true, func(sink flux.Sink[payload.Payload]) {
+		sink.Complete()
+	})
+	r.removeIfDone()
+}
+
+func (r *Responder) OnError(err error) {
+	r.deliver(true, func(sink flux.Sink[payload.Payload]) {
+		sink.Error(err)
+	})
+	r.removeIfDone()
+}
+
+// endOutput reports whether this call is the one that ended the output.
+func (r *Responder) endOutput() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	if r.outDone {
+		return false
+	}
+	r.outDone = true
+	return true
+}
+
+// cancelOutput cancels the handler's response, unless it already ended.
+func (r *Responder) cancelOutput() bool {
+	r.mu.Lock()
+	if r.outDone {
+		r.mu.Unlock()
+		return false
+	}
+	r.outDone = true
+	r.cancelled = true
+	response := r.response
+	r.mu.Unlock()
+	if response != nil {
+		response.Cancel()
+	}
+	return true
+}
+
+// fail ends the stream because an item could not be sent.
+func (r *Responder) fail(err error) {
+	if r.cancelOutput() {
+		r.sendError(err)
+	}
+}
+
+// sendError ends the stream, which no longer has any direction afterwards.
+func (r *Responder) sendError(err error) {
+	r.sendFrame(&frames.Error{
+		StreamID: r.streamID,
+		Data:     err.Error(),
+	})
+	r.OnError(err)
+}
+
+func (r *Responder) removeIfDone() {
+	r.mu.Lock()
+	done := r.outDone && r.inDone
+	r.mu.Unlock()
+	if done {
+		r.remove(r.streamID)
+	}
+}
+
+// deliver hands a signal to the subscriber of the input, in order.
+func (r *Responder) deliver(last bool, signal func(flux.Sink[payload.Payload])) {
+	r.mu.Lock()
+	if r.inDone {
+		r.mu.Unlock()
+		return
+	}
+	r.inDone = last
+	r.input = append(r.input, signal)
+	r.mu.Unlock()
+	r.drain()
+}
+
+func (r *Responder) drain() {
+	r.mu.Lock()
+	if r.sink == nil || r.draining {
+		r.mu.Unlock()
+		return
+	}
+	r.draining = true
+	for len(r.input) > 0 {
+		signal := r.input[0]
+		r.input = r.input[1:]
+		r.mu.Unlock()
+		signal(r.sink)
+		r.mu.Lock()
+	}
+	r.draining = false
+	r.mu.Unlock()
+}
diff --git a/go/proxy/stream.go b/go/proxy/stream.go
index 941be46..ae1f9e7 100644
--- a/go/proxy/stream.go
+++ b/go/proxy/stream.go
@@ -12,6 +12,7 @@ type Stream interface {
 	OnNext(p payload.Payload)
 	OnComplete()
 	OnError(err error)
+	OnCancel()
 }
 
 type streamKey struct{}
diff --git a/go/transport/wasmrs/guest/caller.go b/go/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/go/transport/wasmrs/guest/caller.go
+++ b/go/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 92fffb0..ef6ddb5 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -13,8 +13,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -184,7 +182,10 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+			// Registered before the handler runs: frames for the stream can follow.
+			s := proxy.NewResponder(ctx, rs.StreamID, sendFrame, removeStream)
+			registerStream(s)
+			handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			var rc frames.RequestPayload
@@ -200,7 +201,10 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 
-			handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+			// Registered before the handler runs: frames for the stream can follow.
+			s := proxy.NewChannelResponder(ctx, rc.StreamID, sendFrame, removeStream)
+			registerStream(s)
+			handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 		case frames.FrameTypeRequestN:
 			var rn frames.RequestN
@@ -212,12 +216,12 @@ func GuestSend(endPos uint32) {
 				return
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			str.OnCancel()
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -279,7 +283,6 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
 			}
 
 		case frames.FrameTypeError:
@@ -288,8 +291,6 @@ func GuestSend(endPos uint32) {
 				continue
 			}
 			str.OnError(errors.New(p.Data))
-			str.OnComplete()
-			removeStream(header.StreamID())
 		}
 	}
 }
@@ -310,8 +311,8 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			sendFrame(&frames.Payload{
@@ -347,20 +348,22 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	s := proxy.NewResponder(ctx, streamID, sendFrame, removeStream)
+	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p)
 }
 
-func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestStreamHandler(operationID)
 	if handler == nil {
+		removeStream(streamID)
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -369,46 +372,20 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p), initialN)
 }
 
-func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !checkMetadata(streamID, metadata) {
+		removeStream(streamID)
 		return
 	}
 
 	operationID := binary.BigEndian.Uint32(metadata)
 	handler := invoke.GetRequestChannelHandler(operationID)
 	if handler == nil {
+		removeStream(streamID)
 		sendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -417,51 +394,7 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handler(ctx, p, s.Input()), initialN)
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -572,44 +505,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-
 //go:inline
 func bytesToPointer(s []byte) uintptr {
 	//nolint
diff --git a/go/transport/wasmrs/host/caller.go b/go/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/go/transport/wasmrs/host/caller.go
+++ b/go/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 04dfbbb..954611c 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -16,8 +16,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
-	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
@@ -318,7 +316,10 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		// Registered before the handler runs: frames for the stream can follow.
+		s := proxy.NewResponder(ctx, rs.StreamID, i.SendFrame, i.removeStream)
+		i.registerStream(s)
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -334,7 +335,10 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		// Registered before the handler runs: frames for the stream can follow.
+		s := proxy.NewChannelResponder(ctx, rc.StreamID, i.SendFrame, i.removeStream)
+		i.registerStream(s)
+		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -346,12 +350,12 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		str.OnCancel()
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -410,7 +414,6 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
 		}
 
 	case frames.FrameTypeError:
@@ -419,8 +422,6 @@ func (i *Instance) recvOne(data []byte) {
 			return
 		}
 		str.OnError(errors.New(p.Data))
-		str.OnComplete()
-		i.removeStream(header.StreamID())
 	}
 }
 
@@ -488,8 +489,10 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -502,6 +505,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
 	if handlerRS == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -510,39 +514,13 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRS(ctx, p), initialN)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -555,6 +533,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
 	if handlerRC == nil {
+		i.removeStream(streamID)
 		i.SendFrame(&frames.Error{
 			StreamID: streamID,
 			Data:     "not_found",
@@ -563,51 +542,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	s.Respond(handlerRC(ctx, p, s.Input()), initialN)
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -695,41 +630,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From d8013e2f4a238e81f4a5615a99fcf108db4aacdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 13/61] fix: the handle of a removed instance is never given
 out again

---
 go/invoke/instances.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/go/invoke/instances.go b/go/invoke/instances.go
index a32508e..8c12fd4 100644
--- a/go/invoke/instances.go
+++ b/go/invoke/instances.go
@@ -3,7 +3,6 @@ package invoke
 import (
 	"errors"
 	"sync"
-	"unsafe"
 )
 
 type Ptr[T any] struct {
@@ -14,42 +13,36 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	last      uint64 // Handles are never reused.
+	instances map[uint64]T
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]T),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
-	if ok {
-		inst = ptr.Ptr
-	}
+	inst, ok = t.instances[id]
 	return
 }
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
-	ptr := &Ptr[T]{Ptr: inst}
-	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
-	return handle
+	t.last++
+	t.instances[t.last] = inst
+	return t.last
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
-		inst = ptr.Ptr
-		delete(t.instances, ptr)
+	if inst, ok = t.instances[id]; ok {
+		delete(t.instances, id)
 	}
 	return
 }
-- 
2.43.0


From 33f3c56a530998beed0cf767f0649864f451e277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:18 +0000
Subject: [PATCH 14/61] fix: port envelopes keep next and complete apart and
 refuse truncated input

---
 go/invoke/portio.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/go/invoke/portio.go b/go/invoke/portio.go
index 0f787ce..6948860 100644
--- a/go/invoke/portio.go
+++ b/go/invoke/portio.go
@@ -2,6 +2,7 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
@@ -12,13 +13,21 @@ type PortIO struct {
 	Next     bool
 }
 
+var ErrInvalidPortIO = errors.New("invalid port envelope")
+
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return ErrInvalidPortIO
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if int(portLength) > len(data) {
+		return ErrInvalidPortIO
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
@@ -71,7 +80,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From f93c7a66b70b228a8790cf5b9b7ed92fcf7b66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 15/61] fix: reading a truncated operation table returns an
 error

---
 go/operations/operatons.go | 56 ++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/go/operations/operatons.go b/go/operations/operatons.go
index bca2fb2..bc603a7 100644
--- a/go/operations/operatons.go
+++ b/go/operations/operatons.go
@@ -63,7 +63,12 @@ func (d Direction) String() string {
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
+var ErrInvalidTable = errors.New("invalid operation table")
+
 func FromBytes(buf []byte) (Table, error) {
+	if len(buf) < 10 {
+		return nil, ErrInvalidTable
+	}
 	if !bytes.Equal(buf[0:4], Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
@@ -76,34 +81,57 @@ func FromBytes(buf []byte) (Table, error) {
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
-	for i := 0; i < int(numOps); i++ {
+	// Every operation takes at least 12 bytes.
+	if uint64(numOps)*12 > uint64(len(buf)) {
+		return nil, ErrInvalidTable
+	}
+	operations := make(Table, numOps)
+	var ok bool
+	for i := range operations {
+		if len(buf) < 8 {
+			return nil, ErrInvalidTable
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
-		buf = buf[8:]
-		ns := string(buf[:nsLen])
-		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
-		buf = buf[2:]
-		op := string(buf[:opLen])
-		buf = buf[opLen:]
+		buf = buf[6:]
+		var ns, op []byte
+		if ns, buf, ok = readLengthPrefixed(buf); !ok {
+			return nil, ErrInvalidTable
+		}
+		if op, buf, ok = readLengthPrefixed(buf); !ok {
+			return nil, ErrInvalidTable
+		}
 		operations[i] = Operation{
 			Type:      opType,
 			Direction: dir,
 			Index:     id,
-			Namespace: ns,
-			Operation: op,
+			Namespace: string(ns),
+			Operation: string(op),
+		}
+		// Reserved
+		if _, buf, ok = readLengthPrefixed(buf); !ok {
+			return nil, ErrInvalidTable
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
 	}
 
 	return operations, nil
 }
 
+// readLengthPrefixed splits buf after the bytes that its first two bytes announce.
+func readLengthPrefixed(buf []byte) (value, rest []byte, ok bool) {
+	if len(buf) < 2 {
+		return nil, nil, false
+	}
+	length := int(binary.BigEndian.Uint16(buf))
+	buf = buf[2:]
+	if length > len(buf) {
+		return nil, nil, false
+	}
+	return buf[:length], buf[length:], true
+}
+
 func (t Table) ToBytes() []byte {
 	size := uint32(10)
 	for _, op := range t {
-- 
2.43.0


From 03b50d390d28c10a4485373a5489926ae29f0aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:47 +0000
Subject: [PATCH 16/61] fix: converting an absent value gives an absent value

---
 go/msgpack/convert/convert.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/go/msgpack/convert/convert.go b/go/msgpack/convert/convert.go
index 455fc93..9a26284 100644
--- a/go/msgpack/convert/convert.go
+++ b/go/msgpack/convert/convert.go
@@ -71,6 +71,9 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -80,6 +83,9 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
@@ -95,6 +101,9 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil {
+		return nil, err
+	}
 	ret := T(*value)
 	return &ret, err
 }
-- 
2.43.0


From 2bb90bd7d31d0ef318114e43eccf964afc78f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 17/61] fix: a fragmented request says that fragments follow

---
 go/internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index f9095c1..a8b4ddc 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -72,6 +72,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 64b1889b2a846e66dfb7cb07c63702394d9c73a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 18/61] fix: metadata that fits the first request fragment is
 not sent again

---
 go/internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index a8b4ddc..c88b43f 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -161,6 +161,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = nil
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From 1ae96b269bc98b15e224d37ac36d87330b754482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 19/61] fix: decoding a truncated frame returns an error

---
 go/internal/frames/error.go           | 3 +++
 go/internal/frames/frame.go           | 5 +++++
 go/internal/frames/payload.go         | 6 ++++++
 go/internal/frames/request_n.go       | 3 +++
 go/internal/frames/request_payload.go | 9 +++++++++
 5 files changed, 26 insertions(+)

diff --git a/go/internal/frames/error.go b/go/internal/frames/error.go
index f6966b6..55efb64 100644
--- a/go/internal/frames/error.go
+++ b/go/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncatedFrame
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/go/internal/frames/frame.go b/go/internal/frames/frame.go
index 7dceda4..29889fd 100644
--- a/go/internal/frames/frame.go
+++ b/go/internal/frames/frame.go
@@ -1,5 +1,10 @@
 package frames
 
+import "errors"
+
+// ErrTruncatedFrame is returned for a frame that ends before its fields do.
+var ErrTruncatedFrame = errors.New("truncated frame")
+
 type Frame interface {
 	GetStreamID() uint32
 	Type() FrameType
diff --git a/go/internal/frames/payload.go b/go/internal/frames/payload.go
index 6a6b18b..ebbd88f 100644
--- a/go/internal/frames/payload.go
+++ b/go/internal/frames/payload.go
@@ -32,10 +32,16 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncatedFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if mdLength > uint32(len(payload)) {
+			return ErrTruncatedFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
diff --git a/go/internal/frames/request_n.go b/go/internal/frames/request_n.go
index 636df9d..855a090 100644
--- a/go/internal/frames/request_n.go
+++ b/go/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTruncatedFrame
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/go/internal/frames/request_payload.go b/go/internal/frames/request_payload.go
index c88b43f..11eaca5 100644
--- a/go/internal/frames/request_payload.go
+++ b/go/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTruncatedFrame
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,10 +50,16 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
+		if len(payload) < 3 {
+			return ErrTruncatedFrame
+		}
 		var mdLengthBuf [4]byte
 		copy(mdLengthBuf[1:], payload[0:3])
 		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
 		payload = payload[3:]
+		if mdLength > uint32(len(payload)) {
+			return ErrTruncatedFrame
+		}
 		metadata = payload[:mdLength]
 		payload = payload[mdLength:]
 	}
-- 
2.43.0


From 32d228e1a789c1e6f3d932f7a705a1d4b95177c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:37 +0000
Subject: [PATCH 20/61] fix: server stream ids skip zero when they wrap

---
 go/internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/internal/socket/stream_id.go b/go/internal/socket/stream_id.go
index 974ab23..94d3c75 100644
--- a/go/internal/socket/stream_id.go
+++ b/go/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed < _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From 77091c5fddaf35a3c0fda07c7a51f29e18379a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 21/61] fix: a received frame keeps its content when the next
 is read

---
 go/transport/rsocket/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index 7e9be2e..c304a7c 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -34,7 +34,8 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 		}
 		return
 	}
-	raw = scanner.Bytes()[lengthFieldSize:]
+	// The scanner reuses its buffer, but the frame outlives this read.
+	raw = append(raw, scanner.Bytes()[lengthFieldSize:]...)
 	if len(raw) < frames.FrameHeaderLen {
 		err = ErrIncompleteHeader
 	}
-- 
2.43.0


From b71c7fafeff94bcfd09c722578f9a9973ae7456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 22/61] fix: frames read together with the end of the stream
 are delivered

---
 go/transport/rsocket/decoder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/go/transport/rsocket/decoder.go b/go/transport/rsocket/decoder.go
index c304a7c..73ec3eb 100644
--- a/go/transport/rsocket/decoder.go
+++ b/go/transport/rsocket/decoder.go
@@ -43,9 +43,7 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
+	// The last read can bring complete frames together with the end.
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 2ed35cdff77343d79dd3828eea0a5566a5ac5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:27 +0000
Subject: [PATCH 23/61] fix: writing a frame that is too long returns an error

---
 go/transport/rsocket/tcp_conn.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/transport/rsocket/tcp_conn.go b/go/transport/rsocket/tcp_conn.go
index 7d36c89..9ccdd11 100644
--- a/go/transport/rsocket/tcp_conn.go
+++ b/go/transport/rsocket/tcp_conn.go
@@ -100,7 +100,12 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err != nil {
+		err = fmt.Errorf("write frame failed: %w", err)
+		return
+	}
+	_, err = length.WriteTo(p.writer)
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From c08b529c6174fc4f048a7fb248b80c36857fae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 24/61] fix: frames sent concurrently do not mix on the
 connection

---
 go/transport/rsocket/transport.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index e043506..19b4864 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -52,6 +52,7 @@ type Transport struct {
 	conn        Conn
 	maxLifetime time.Duration
 	once        sync.Once
+	sendMu      sync.Mutex // Keeps the bytes of concurrently sent frames apart.
 	handler     DuplexHandler
 }
 
@@ -104,6 +105,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -121,6 +124,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.sendMu.Lock()
+	defer p.sendMu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From b06e713967bee503ca68987543a888c3385e471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 25/61] fix: losing or closing a connection ends what depends
 on it

---
 go/handler/handler.go             | 14 ++++++++++++
 go/proxy/lookup.go                | 13 +++++++++++
 go/transport/rsocket/transport.go | 37 ++++++++++++++++++++++++++++---
 3 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index 6fe9a60..f5bedbf 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
+	"sync/atomic"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -13,11 +14,14 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errConnectionClosed = errors.New("connection closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
 	ctx          context.Context
 	sendFrame    FrameSender
+	closed       int32 // Accessed atomically.
 	streamIDs    uint64
 	nextStreamID func() (id uint32, firstLoop bool)
 
@@ -69,7 +73,14 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close ends everything that depends on the connection: requests
+// that wait for it fail and the producers that serve it are cancelled.
 func (i *Handler) Close() error {
+	atomic.StoreInt32(&i.closed, 1)
+	for _, s := range append(i.guestStreams.Drain(), i.hostStreams.Drain()...) {
+		s.OnError(errConnectionClosed)
+		s.OnCancel()
+	}
 	return nil
 }
 
@@ -98,6 +109,9 @@ func (i *Handler) getStream(streamID uint32) (proxy.Stream, bool) {
 }
 
 func (i *Handler) SendFrame(f frames.Frame) error {
+	if atomic.LoadInt32(&i.closed) != 0 {
+		return errConnectionClosed
+	}
 	return i.sendFrame(f)
 }
 
diff --git a/go/proxy/lookup.go b/go/proxy/lookup.go
index d303f76..923118a 100644
--- a/go/proxy/lookup.go
+++ b/go/proxy/lookup.go
@@ -76,6 +76,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Drain removes and returns all streams.
+func (l *Lookup) Drain() []Stream {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	var streams []Stream
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.head, l.tail = nil, nil
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/go/transport/rsocket/transport.go b/go/transport/rsocket/transport.go
index 19b4864..64991dc 100644
--- a/go/transport/rsocket/transport.go
+++ b/go/transport/rsocket/transport.go
@@ -52,6 +52,8 @@ type Transport struct {
 	conn        Conn
 	maxLifetime time.Duration
 	once        sync.Once
+	mu          sync.Mutex // Guards started.
+	started     bool
 	sendMu      sync.Mutex // Keeps the bytes of concurrently sent frames apart.
 	handler     DuplexHandler
 }
@@ -134,10 +136,23 @@ func (p *Transport) Flush() (err error) {
 func (p *Transport) Close() (err error) {
 	p.once.Do(func() {
 		err = p.conn.Close()
+		p.mu.Lock()
+		started := p.started
+		p.mu.Unlock()
+		// Start closes the handler after the last received frame.
+		if !started {
+			p.closeHandler()
+		}
 	})
 	return
 }
 
+func (p *Transport) closeHandler() {
+	if c, ok := p.handler.(io.Closer); ok {
+		_ = c.Close()
+	}
+}
+
 // ReadFirst reads first frame.
 func (p *Transport) ReadFirst(ctx context.Context) (frame frames.Frame, err error) {
 	select {
@@ -177,9 +192,9 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 
 // Start start transport.
 func (p *Transport) Start(ctx context.Context) error {
-	defer func() {
-		_ = p.Close()
-	}()
+	p.mu.Lock()
+	p.started = true
+	p.mu.Unlock()
 
 	done := make(chan struct{}, 1)
 	errChan := make(chan error, 1)
@@ -188,11 +203,24 @@ func (p *Transport) Start(ctx context.Context) error {
 		framesBuffer = buffer.NewUnbounded[frames.Frame]()
 	)
 
+	stopped := make(chan struct{})
 	defer func() {
+		close(stopped)
+		_ = p.Close()
 		framesBuffer.Dispose()
 
 		<-done
 		// <-done
+		p.closeHandler()
+	}()
+
+	// Closing the connection ends a read that waits for the next frame.
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stopped:
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
@@ -205,6 +233,9 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil && ctx.Err() != nil {
+				return ctx.Err()
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 44e169c4f18ea2d25fb68be5f4ffd2014a6cab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 26/61] fix: a server forgets connections that ended and closes
 all it accepted

---
 go/transport/rsocket/tcp_transport.go | 49 ++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/go/transport/rsocket/tcp_transport.go b/go/transport/rsocket/tcp_transport.go
index 20b9935..7414a43 100644
--- a/go/transport/rsocket/tcp_transport.go
+++ b/go/transport/rsocket/tcp_transport.go
@@ -31,33 +31,41 @@ func (t *tcpServerTransport) Accept(acceptor ServerTransportAcceptor) {
 
 func (t *tcpServerTransport) Close() (err error) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
-
+	var l net.Listener
+	var m map[*Transport]struct{}
 	select {
 	case <-t.done:
 		// already closed
 		break
 	default:
 		close(t.done)
-		if t.l == nil {
-			break
-		}
-		err = t.l.Close()
-		for k := range t.m {
-			_ = k.Close()
-		}
+		l, m = t.l, t.m
 		t.m = nil
 	}
+	t.mu.Unlock()
+
+	if l != nil {
+		err = l.Close()
+	}
+	for k := range m {
+		_ = k.Close()
+	}
 	return
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.putListener(l) {
+		notifier <- false
+		_ = l.Close()
+		err = fmt.Errorf("listen tcp server failed: %w", errTransportClosed)
+		return
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +87,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -97,17 +105,34 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			go func() {
+				_ = tp.Start(ctx)
+				t.removeTransport(tp)
+			}()
 			go t.acceptor(ctx, h, func(tp *Transport) {
 				t.removeTransport(tp)
 			})
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
 	return
 }
 
+func (t *tcpServerTransport) putListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		// already closed
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From 5b4318f348f34dc829218781e4ce7c0df2f59e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 27/61] fix: a response that cannot be sent is answered with an
 error

---
 go/handler/handler.go                | 8 +++++++-
 go/transport/wasmrs/guest/guest.go   | 8 +++++++-
 go/transport/wasmrs/host/instance.go | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/go/handler/handler.go b/go/handler/handler.go
index f5bedbf..a67c7bb 100644
--- a/go/handler/handler.go
+++ b/go/handler/handler.go
@@ -260,13 +260,19 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.sendFrame(&frames.Error{
diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index ef6ddb5..fea58bc 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -315,13 +315,19 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	ctx = proxy.WithContext(ctx, s)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			sendFrame(&frames.Error{
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 954611c..cd35d29 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -448,13 +448,19 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
 			})
+			if err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
-- 
2.43.0


From 07253982ba388cad9428a165e2068dc3fa5532e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:50 +0000
Subject: [PATCH 28/61] fix: frames from a module are processed with exactly
 their own bytes, without deadlock

---
 go/transport/wasmrs/host/instance.go | 42 ++++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index cd35d29..952d025 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -1,15 +1,14 @@
 package host
 
 import (
-	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
 	"fmt"
-	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
+	"github.com/nanobus/iota/go/internal/buffer"
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
 	"github.com/nanobus/iota/go/invoke"
@@ -23,7 +22,7 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
-	recvCh    chan *bytes.Buffer //[]byte
+	recvQueue *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
 	sendSize  uint32
@@ -72,8 +71,10 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		ctx:    ctx,
 		m:      m,
 		sendCh: make(chan frames.Frame, 100),
-		recvCh: make(chan *bytes.Buffer, 100),
-		sendFn: send,
+		// Unbounded: the module must not wait for frames it sent before,
+		// because handling those can wait for the module.
+		recvQueue: buffer.NewUnbounded[[]byte](),
+		sendFn:    send,
 		// streams: make(map[uint32]proxy.Stream),
 		// streams:            make([]proxy.Stream, 1024*1024),
 		maxFrameSize:       1024 * 1024,
@@ -101,7 +102,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 
 func (i *Instance) Close() error {
 	close(i.sendCh)
-	close(i.recvCh)
+	i.recvQueue.Dispose()
 	return nil
 }
 
@@ -209,12 +210,6 @@ func (i *Instance) sendLoop() {
 	}
 }
 
-var buffers = sync.Pool{
-	New: func() interface{} {
-		return new(bytes.Buffer)
-	},
-}
-
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -228,29 +223,34 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
-		buf := buffers.Get().(*bytes.Buffer)
-		buf.Reset()
-		buf.Write(buffer)
-		i.recvCh <- buf
+		if frameLength > uint32(len(buffer)) {
+			return
+		}
+		// The module reuses its buffer, but the frame outlives this call.
+		frame := make([]byte, frameLength)
+		copy(frame, buffer)
+		i.recvQueue.Put(frame)
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf.Bytes())
-		buf.Reset()
-		buffers.Put(buf)
+	for frame := range i.recvQueue.Get() {
+		i.recvOne(frame)
+		i.recvQueue.Load()
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
-- 
2.43.0


From 7be58d6223a990d0efe32b33170cbb9c50c82d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 29/61] fix: sending to a closed or crashed module or more than
 its buffer holds returns an error

---
 go/transport/wasmrs/host/instance.go | 76 +++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 952d025..f4cc9ae 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/tetratelabs/wazero/api"
 
@@ -22,6 +23,8 @@ type Instance struct {
 	ctx       context.Context
 	m         api.Module
 	sendCh    chan frames.Frame
+	closeMu   sync.RWMutex // Guards closed.
+	closed    bool
 	recvQueue *buffer.Unbounded[[]byte]
 	sendFn    api.Function
 	sendPtr   uint32
@@ -58,6 +61,11 @@ type fragmentedPayload struct {
 
 type instanceKey struct{}
 
+var (
+	errConnectionClosed = errors.New("connection closed")
+	errFrameTooLarge    = errors.New("frame does not fit the buffer of the module")
+)
+
 func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	init := m.ExportedFunction("__wasmrs_init")
 	if init == nil {
@@ -100,9 +108,22 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	return i, nil
 }
 
+// Close refuses further frames and fails what waits for the module.
 func (i *Instance) Close() error {
+	i.closeMu.Lock()
+	closed := i.closed
+	i.closed = true
+	i.closeMu.Unlock()
+	if closed {
+		return nil
+	}
+
 	close(i.sendCh)
 	i.recvQueue.Dispose()
+	for _, s := range append(i.guestStreams.Drain(), i.hostStreams.Drain()...) {
+		s.OnError(errConnectionClosed)
+		s.OnCancel()
+	}
 	return nil
 }
 
@@ -146,6 +167,14 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
+	if f.Size() > i.sendSize-3 {
+		return errFrameTooLarge
+	}
+	i.closeMu.RLock()
+	defer i.closeMu.RUnlock()
+	if i.closed {
+		return errConnectionClosed
+	}
 	i.sendCh <- f
 	return nil
 }
@@ -162,24 +191,36 @@ func (i *Instance) sendLoop() {
 	pos := uint32(0)
 	count := 0
 
-	write := func(f frames.Frame) {
-		// Make sure to obtain the buffer
-		// in case it changed size via grow/shrink.
+	flush := func() {
 		if pos == 0 {
-			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			return
+		}
+		if _, err := i.sendFn.Call(ctx, uint64(pos)); err != nil {
+			// The module crashed and will not answer.
+			go i.Close()
 		}
+		pos = 0
+		count = 0
+	}
 
+	write := func(f frames.Frame) {
 		byteCount := f.Size()
 
 		// if this frame does not fit,
 		// send the buffer and reset.
-		if pos+3+byteCount >= i.sendSize {
-			i.sendFn.Call(ctx, uint64(pos))
-			pos = 0
-			count = 0
+		if pos+3+byteCount > i.sendSize {
+			flush()
+		}
+
+		// Make sure to obtain the buffer
+		// in case it changed size via grow/shrink.
+		if pos == 0 {
+			var ok bool
 			mem := i.m.Memory()
-			buf, _ = mem.Read(i.sendPtr, i.sendSize)
+			if buf, ok = mem.Read(i.sendPtr, i.sendSize); !ok {
+				go i.Close()
+				return
+			}
 		}
 
 		// Encode length and frame data.
@@ -196,14 +237,15 @@ func (i *Instance) sendLoop() {
 		loop := true
 		for loop {
 			select {
-			case f := <-i.sendCh:
-				write(f)
-			default:
-				if pos > 0 {
-					i.sendFn.Call(ctx, uint64(pos))
-					pos = 0
-					count = 0
+			case f, ok := <-i.sendCh:
+				if ok {
+					write(f)
+					break
 				}
+				flush()
+				return
+			default:
+				flush()
 				loop = false
 			}
 		}
-- 
2.43.0


From 07c974f0678ff04b9e6ee5c9a7da40bc28fe15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 30/61] fix: a module with an invalid operation list is refused

---
 go/transport/wasmrs/host/instance.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index f4cc9ae..cc1f5d3 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -45,6 +45,7 @@ type Instance struct {
 	maxFrameSize       uint32
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
+	operationsErr      error
 
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
@@ -97,10 +98,16 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if i.operationsErr != nil {
+		return nil, i.operationsErr
+	}
 
 	go i.recvLoop()
 	go i.sendLoop()
@@ -257,9 +264,12 @@ func (i *Instance) Operations() operations.Table {
 }
 
 func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
-	buf, _ := i.m.Memory().Read(opPtr, opSize)
-	operations, _ := operations.FromBytes(buf)
-	i.operations = operations
+	buf, ok := i.m.Memory().Read(opPtr, opSize)
+	if !ok {
+		i.operationsErr = operations.ErrInvalidTable
+		return
+	}
+	i.operations, i.operationsErr = operations.FromBytes(buf)
 }
 
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
-- 
2.43.0


From f9cf408c0b348f878c90badbc1eef6577ba3d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 31/61] fix: import handlers can be linked while a module runs

---
 go/transport/wasmrs/host/instance.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index cc1f5d3..2344e95 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -47,6 +47,7 @@ type Instance struct {
 	operations         operations.Table
 	operationsErr      error
 
+	importedMu   sync.RWMutex // Guards the handlers below.
 	importedRR   []invoke.RequestResponseHandler
 	importedRFNF []invoke.FireAndForgetHandler
 	importedRS   []invoke.RequestStreamHandler
@@ -604,6 +605,8 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRR)) < index+1 {
 		i.importedRR = append(i.importedRR, nil)
 	}
@@ -611,6 +614,8 @@ func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.Reques
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRR)) <= index {
 		return nil
 	}
@@ -618,6 +623,8 @@ func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestRespons
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRFNF)) < index+1 {
 		i.importedRFNF = append(i.importedRFNF, nil)
 	}
@@ -625,6 +632,8 @@ func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndF
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRFNF)) <= index {
 		return nil
 	}
@@ -632,6 +641,8 @@ func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHan
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRS)) < index+1 {
 		i.importedRS = append(i.importedRS, nil)
 	}
@@ -639,6 +650,8 @@ func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestS
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRS)) <= index {
 		return nil
 	}
@@ -646,6 +659,8 @@ func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHan
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
+	i.importedMu.Lock()
+	defer i.importedMu.Unlock()
 	for uint32(len(i.importedRC)) < index+1 {
 		i.importedRC = append(i.importedRC, nil)
 	}
@@ -653,6 +668,8 @@ func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.Request
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
+	i.importedMu.RLock()
+	defer i.importedMu.RUnlock()
 	if uint32(len(i.importedRC)) <= index {
 		return nil
 	}
-- 
2.43.0


From 04192be5a11a3382ea6c76ebf18993d21f4f6d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:57 +0000
Subject: [PATCH 32/61] fix: a module's import index does not size the host's
 memory

---
 go/transport/wasmrs/host/instance.go | 36 +++++++---------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 2344e95..20a0e8d 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -48,10 +48,10 @@ type Instance struct {
 	operationsErr      error
 
 	importedMu   sync.RWMutex // Guards the handlers below.
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   map[uint32]invoke.RequestResponseHandler
+	importedRFNF map[uint32]invoke.FireAndForgetHandler
+	importedRS   map[uint32]invoke.RequestStreamHandler
+	importedRC   map[uint32]invoke.RequestChannelHandler
 }
 
 type fragmentedPayload struct {
@@ -90,6 +90,10 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		maxFrameSize:       1024 * 1024,
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
+		importedRC:         make(map[uint32]invoke.RequestChannelHandler),
+		importedRS:         make(map[uint32]invoke.RequestStreamHandler),
+		importedRFNF:       make(map[uint32]invoke.FireAndForgetHandler),
+		importedRR:         make(map[uint32]invoke.RequestResponseHandler),
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -607,72 +611,48 @@ func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
 	i.importedRR[index] = handler
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
 	return i.importedRR[index]
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
 	i.importedRFNF[index] = handler
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
 	return i.importedRFNF[index]
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
 	i.importedRS[index] = handler
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
 	return i.importedRS[index]
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
 	i.importedMu.Lock()
 	defer i.importedMu.Unlock()
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
 	i.importedRC[index] = handler
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
 	i.importedMu.RLock()
 	defer i.importedMu.RUnlock()
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
 	return i.importedRC[index]
 }
 
-- 
2.43.0


From 88819b09b5350e762ab1e43c3eb59c9cb859795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 33/61] fix: a guest refuses to send a frame that does not fit
 the buffer

---
 go/transport/wasmrs/guest/guest.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index fea58bc..7d9651c 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -33,6 +33,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errFrameTooLarge = errors.New("frame does not fit the buffer of the host")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -494,17 +496,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
+	if int64(f.Size())+3 > int64(len(hostBuffer)) {
+		return errFrameTooLarge
+	}
 	byteLength := f.Size()
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
-- 
2.43.0


From 815d2774b33e34254e5b248d415c08c21d64417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:59 +0000
Subject: [PATCH 34/61] fix: a guest survives frames with invalid lengths

---
 go/transport/wasmrs/guest/guest.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index 7d9651c..f86284a 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -110,13 +110,23 @@ func GuestSend(endPos uint32) {
 	buf := guestBuffer
 
 	for curPos < endPos {
+		if len(buf) < 3 {
+			return
+		}
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > uint32(len(buf)-3) {
+			return
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
 		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
 
+		if frameLen < frames.FrameHeaderLen {
+			continue
+		}
+
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
 		buffer := frameBuf[frames.FrameHeaderLen:]
-- 
2.43.0


From 36a0ff94ed060a0cbae15dbd0daf6d2d3a6808f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 35/61] fix: a malformed frame fails its own stream and no
 other frame

---
 go/transport/wasmrs/guest/guest.go   | 14 +++++++-------
 go/transport/wasmrs/host/instance.go | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index f86284a..b336a02 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -152,7 +152,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -168,7 +168,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -184,7 +184,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -203,10 +203,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -222,10 +222,10 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
 			if s, ok := str.(DoRequest); ok {
diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index 20a0e8d..e4ac436 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -331,7 +331,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -347,7 +347,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -363,7 +363,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -382,7 +382,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -401,7 +401,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
-- 
2.43.0


From ce3382052aff8a76b0f7855552181fc5d7f7a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 36/61] fix: mesh calls reach the latest exporter with the
 caller's payload, or not_found

Imports kept calling the module that exported an operation when they were
linked, operations of different types shared a name, calling an unknown
operation returned nil, and the caller's metadata was overwritten.
---
 go/transport/wasmrs/mesh/mesh.go | 137 ++++++++++++++++---------------
 1 file changed, 71 insertions(+), 66 deletions(-)

diff --git a/go/transport/wasmrs/mesh/mesh.go b/go/transport/wasmrs/mesh/mesh.go
index 0ba06f8..747d1bb 100644
--- a/go/transport/wasmrs/mesh/mesh.go
+++ b/go/transport/wasmrs/mesh/mesh.go
@@ -3,8 +3,10 @@ package mesh
 import (
 	"context"
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,11 +23,17 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex // Guards the fields below.
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[exportKey]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	exportKey struct {
+		requestType          operations.RequestType
+		namespace, operation string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -37,6 +45,8 @@ type (
 	}
 )
 
+var errNotFound = errors.New("not_found")
+
 type Option func(*Mesh)
 
 func WithVerbose() Option {
@@ -48,7 +58,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     make(map[exportKey]*atomic.Pointer[destination]),
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -60,67 +70,60 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
+	dest, ok := m.lookup(operations.RequestResponse, namespace, operation)
 	if !ok {
-		return nil
+		return mono.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
+	dest, ok := m.lookup(operations.FireAndForget, namespace, operation)
 	if !ok {
 		return
 	}
 
-	ptr, ok := ns[operation]
-	if !ok {
-		return
-	}
-	dest := ptr.Load()
-
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
-		return nil
-	}
-
-	ptr, ok := ns[operation]
+	dest, ok := m.lookup(operations.RequestStream, namespace, operation)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
-	dest := ptr.Load()
 
 	return dest.RequestStream(ctx, p)
 }
 
 func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
+	dest, ok := m.lookup(operations.RequestChannel, namespace, operation)
 	if !ok {
-		return nil
+		return flux.Error[payload.Payload](errNotFound)
 	}
 
-	ptr, ok := ns[operation]
+	return dest.RequestChannel(ctx, p, in)
+}
+
+// lookup finds the module that exports an operation.
+func (m *Mesh) lookup(requestType operations.RequestType, namespace, operation string) (*destination, bool) {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+	ptr, ok := m.exports[exportKey{requestType, namespace, operation}]
 	if !ok {
-		return nil
+		return nil, false
 	}
-	dest := ptr.Load()
-
-	return dest.RequestChannel(ctx, p, in)
+	return ptr.Load(), true
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -154,6 +157,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
@@ -191,15 +197,11 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 
 		switch op.Direction {
 		case operations.Export:
-			ns, ok := m.exports[op.Namespace]
-			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
-				m.exports[op.Namespace] = ns
-			}
-			ptr, ok := ns[op.Operation]
+			key := exportKey{op.Type, op.Namespace, op.Operation}
+			ptr, ok := m.exports[key]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				m.exports[key] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -235,59 +237,62 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 }
 
 func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool {
-	ns, ok := m.exports[op.Namespace]
-	if !ok {
-		return false
-	}
-
-	ptr, ok := ns[op.Operation]
+	ptr, ok := m.exports[exportKey{op.Type, op.Namespace, op.Operation}]
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination is looked up with every call:
+	// another module can export the operation later.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+// address returns the payload with the routing prefix of the destination.
+func (d *destination) address(p payload.Payload) payload.Payload {
+	// The metadata of the caller's payload stays as it is.
+	md := append([]byte(nil), p.Metadata()...)
+	for len(md) < 8 {
+		md = append(md, 0)
 	}
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	p = d.address(p)
 	return d.instance.RequestResponse(ctx, p)
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	d.instance.FireAndForget(ctx, p)
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestStream(ctx, p)
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestChannel(ctx, p, in)
 }
-- 
2.43.0


From 131af41fb4458adbb5777de06e800a6646a903bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 37/61] fix: sizes of nil and 255-byte values match what is
 written

---
 go/msgpack/encoder.go | 3 ---
 go/msgpack/sizer.go   | 5 +----
 2 files changed, 1 insertion(+), 7 deletions(-)

diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index 2fd74c0..ebe87d2 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -312,9 +312,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index 0fc83c0..e409960 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -115,7 +115,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
@@ -276,9 +276,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From 1aedaeed60c1468091a67d396f1e2d9f50cec680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:46 +0000
Subject: [PATCH 38/61] fix: dynamically typed times and floats are written,
 unsupported types reported

---
 go/msgpack/codec.go      |  6 ++++++
 go/msgpack/encoder.go    | 32 +++++++++++++++++++++++++++++++-
 go/msgpack/interfaces.go |  5 +++++
 go/msgpack/sizer.go      | 27 +++++++++++++++++++++++++--
 4 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/go/msgpack/codec.go b/go/msgpack/codec.go
index 8e39093..29d8efe 100644
--- a/go/msgpack/codec.go
+++ b/go/msgpack/codec.go
@@ -13,11 +13,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/go/msgpack/encoder.go b/go/msgpack/encoder.go
index ebe87d2..c3ae16d 100644
--- a/go/msgpack/encoder.go
+++ b/go/msgpack/encoder.go
@@ -316,7 +316,7 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		e.fail(v.Encode(e))
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -345,6 +345,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -359,6 +361,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
@@ -421,6 +429,19 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteFloat64(v)
+		}
+
 	case map[string]string:
 		size := uint32(len(v))
 		e.WriteMapSize(size)
@@ -512,6 +533,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.fail(ErrUnsupportedType)
 	}
 }
 
@@ -562,6 +585,13 @@ func (e *Encoder) write4(code byte, n uint32) error {
 	return e.reader.SetBytes(buf[:])
 }
 
+// fail keeps the first error.
+func (e *Encoder) fail(err error) {
+	if e.reader.err == nil {
+		e.reader.err = err
+	}
+}
+
 func (e *Encoder) Err() error {
 	return e.reader.Err()
 }
diff --git a/go/msgpack/interfaces.go b/go/msgpack/interfaces.go
index 21e75a2..5551161 100644
--- a/go/msgpack/interfaces.go
+++ b/go/msgpack/interfaces.go
@@ -1,9 +1,14 @@
 package msgpack
 
 import (
+	"errors"
 	"time"
 )
 
+// ErrUnsupportedType is the error of a `Writer` that was given
+// a dynamically typed value that it does not know how to write.
+var ErrUnsupportedType = errors.New("unsupported type")
+
 // Reader is the interface for reading data from the MessagePack format.
 type Reader interface {
 	IsNextNil() (bool, error)
diff --git a/go/msgpack/sizer.go b/go/msgpack/sizer.go
index e409960..d192b13 100644
--- a/go/msgpack/sizer.go
+++ b/go/msgpack/sizer.go
@@ -7,6 +7,7 @@ import (
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 func NewSizer() Sizer {
@@ -280,7 +281,7 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		s.fail(v.Encode(s))
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -393,6 +394,19 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteUint64(v)
 		}
 
+	case []float32:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat32(v)
+		}
+	case []float64:
+		size := uint32(len(v))
+		s.WriteArraySize(size)
+		for _, v := range v {
+			s.WriteFloat64(v)
+		}
+
 	case map[string]string:
 		size := uint32(len(v))
 		s.WriteMapSize(size)
@@ -484,9 +498,18 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(ErrUnsupportedType)
+	}
+}
+
+// fail keeps the first error.
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 91911b1222710494a9ffaabee7a3bbdd6f5cf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:47 +0000
Subject: [PATCH 39/61] fix: a length near the 32-bit limit does not pass the
 bounds check

---
 go/msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/msgpack/data_reader.go b/go/msgpack/data_reader.go
index 4240605..fb12014 100644
--- a/go/msgpack/data_reader.go
+++ b/go/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if length > uint32(len(d.buffer))-d.byteOffset {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From f8e1ba2ad32352a098ac6d80f712e7dbbb96aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 40/61] fix: skipping consumes exactly one value of any type,
 or reports that it is truncated

---
 go/msgpack/decoder.go | 161 +++++++++++++++++-------------------------
 1 file changed, 64 insertions(+), 97 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index 85af61f..bd14d08 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -590,119 +590,86 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	// Counts instead of recursing: how deep values are nested is up to the input.
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		size, err := d.getSize()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += size
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+// getSize discards one value and returns the number of values it contains,
+// which are yet to be discarded.
+func (d *Decoder) getSize() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
-		// Noop, will just discard the leadbyte
+		return 0, nil // Just the leadbyte
 	} else if isFixedString(leadByte) {
-		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		return 0, d.reader.Discard(uint32(leadByte & 0x1f))
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		return uint64(leadByte & FormatFourLeastSigBitsInByte), nil
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
-	} else {
-		switch leadByte {
-		case FormatNil, FormatTrue, FormatFalse:
-		case FormatString8, FormatBin8:
-			length, err := d.reader.GetUint8()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString16, FormatBin16:
-			length, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString32, FormatBin32:
-			length, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(length)
-			if err != nil {
-				return 0, err
-			}
-		case FormatFloat32:
-			d.reader.Discard(4)
-		case FormatFloat64:
-			d.reader.Discard(8)
-		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
-		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
-		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
-		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
-		case FormatFixExt1:
-			d.reader.Discard(1)
-		case FormatFixExt2:
-			d.reader.Discard(3)
-		case FormatFixExt4:
-			d.reader.Discard(5)
-		case FormatFixExt8:
-			d.reader.Discard(9)
-		case FormatFixExt16:
-			d.reader.Discard(17)
-		case FormatArray16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = uint32(v)
-		case FormatArray32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = v
-		case FormatMap16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * uint32(v)
-		case FormatMap32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * v
-		default:
-			return 0, ReadError{"bad prefix"}
+		return 2 * uint64(leadByte&FormatFourLeastSigBitsInByte), nil
+	}
+
+	switch leadByte {
+	case FormatNil, FormatTrue, FormatFalse:
+		return 0, nil
+	case FormatString8, FormatBin8:
+		length, err := d.reader.GetUint8()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString16, FormatBin16:
+		length, err := d.reader.GetUint16()
+		if err != nil {
+			return 0, err
 		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString32, FormatBin32:
+		length, err := d.reader.GetUint32()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatUint8, FormatInt8:
+		return 0, d.reader.Discard(1)
+	case FormatUint16, FormatInt16:
+		return 0, d.reader.Discard(2)
+	case FormatUint32, FormatInt32, FormatFloat32:
+		return 0, d.reader.Discard(4)
+	case FormatUint64, FormatInt64, FormatFloat64:
+		return 0, d.reader.Discard(8)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		_, length, err := d.extHeader(leadByte)
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatArray16:
+		v, err := d.reader.GetUint16()
+		return uint64(v), err
+	case FormatArray32:
+		v, err := d.reader.GetUint32()
+		return uint64(v), err
+	case FormatMap16:
+		v, err := d.reader.GetUint16()
+		return 2 * uint64(v), err
+	case FormatMap32:
+		v, err := d.reader.GetUint32()
+		return 2 * uint64(v), err
 	}
 
-	return objectsToDiscard, nil
+	return 0, ReadError{"bad prefix"}
 }
 
 func (d *Decoder) ReadAny() (any, error) {
@@ -886,13 +853,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
+		n, err := d.reader.GetUint32()
 		return n, err
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
-- 
2.43.0


From 80bb7d52a379ce0ad7161677fb761413e75711e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 41/61] fix: dynamically typed reads neither panic nor
 over-allocate, and read times

---
 go/msgpack/decoder.go | 92 +++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 29 deletions(-)

diff --git a/go/msgpack/decoder.go b/go/msgpack/decoder.go
index bd14d08..88b481c 100644
--- a/go/msgpack/decoder.go
+++ b/go/msgpack/decoder.go
@@ -9,8 +9,13 @@ import (
 
 type Decoder struct {
 	reader DataReader
+	depth  int // of the arrays and maps being read by ReadAny
 }
 
+// MaxDepth is how deep the arrays and maps of a
+// dynamically typed value can be nested.
+const MaxDepth = 10000
+
 func NewDecoder(buffer []byte) Decoder {
 	return Decoder{
 		reader: NewDataReader(buffer),
@@ -390,6 +395,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTime(prefix)
+}
+
+func (d *Decoder) readTime(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -688,17 +697,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -742,33 +745,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -787,37 +782,76 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTime(prefix)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+
+	// The length is not trusted before the values are there.
+	array := make([]any, 0, capacity(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+
+	m := make(map[any]any, capacity(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
+		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return nil, ReadError{"bad type of map key"}
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
+	return m, nil
+}
+
+func (d *Decoder) enter() error {
+	if d.depth >= MaxDepth {
+		return ReadError{"nested too deep"}
+	}
+	d.depth++
 	return nil
 }
 
+func (d *Decoder) leave() {
+	d.depth--
+}
+
+func capacity(length uint32) int {
+	if length > 16 {
+		return 16
+	}
+	return int(length)
+}
+
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
 	extLen, err := d.parseExtLen(c)
 	if err != nil {
-- 
2.43.0


From f52f0566dcc881abda67569049cfcf88a944c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 42/61] fix: SliceResponse keeps the order of items when more
 are requested while sending

---
 go/rx/flux/response.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/go/rx/flux/response.go b/go/rx/flux/response.go
index b4390b5..e8c8e0d 100644
--- a/go/rx/flux/response.go
+++ b/go/rx/flux/response.go
@@ -1,17 +1,24 @@
 package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
+	demand, sending := 0, false
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		if n > len(slice) {
+			n = len(slice)
 		}
-		// Advance first: sending an item can request more.
-		batch := slice[:num]
-		slice = slice[num:]
-		for _, item := range batch {
+		demand += n
+		if sending {
+			// Requested by an item: sent after those before it.
+			return
+		}
+		sending = true
+		for demand > 0 && len(slice) > 0 {
+			item := slice[0]
+			slice = slice[1:]
+			demand--
 			sink.Next(item)
 		}
+		sending = false
 		if len(slice) == 0 {
 			sink.Complete()
 		}
-- 
2.43.0


From 1161e7e2969e2ae6a8c4bed70b18c4a3948812c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:01 +0000
Subject: [PATCH 43/61] fix: blocking on a mapped flux that has ended returns
 at once

---
 go/rx/flux/flux_host.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/go/rx/flux/flux_host.go b/go/rx/flux/flux_host.go
index 72ee725..42b1f7e 100644
--- a/go/rx/flux/flux_host.go
+++ b/go/rx/flux/flux_host.go
@@ -30,16 +30,31 @@ func (s *subscriber[T]) doRequest(n int) {
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
 	f.stateMu.Lock()
 	subscriber := f.subscriber
-	ended := subscriber != nil && subscriber.ended
 	f.stateMu.Unlock()
-	if ended {
-		return subscriber.err
+	if err, ended := subscriber.outcome(); ended {
+		return err
 	}
 
 	return Block(Flux[T](f), sub)
 }
 
+// outcome reports the error the subscription ended with and whether it has ended.
+func (s *subscriber[T]) outcome() (error, bool) {
+	if s == nil {
+		return nil, false
+	}
+	s.f.stateMu.Lock()
+	defer s.f.stateMu.Unlock()
+	return s.err, s.ended
+}
+
 func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+	if s, ok := b.f.Subscription().(interface{ outcome() (error, bool) }); ok {
+		if err, ended := s.outcome(); ended {
+			return err
+		}
+	}
+
 	return Block(Flux[D](b), sub)
 }
 
-- 
2.43.0


From 697efc35015867bb4de76cfa7a2dd7d03f25ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:01 +0000
Subject: [PATCH 44/61] fix: a mono processor tells its outcome to whoever
 subscribes later

---
 go/rx/mono/processor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index 004bfd8..63c1787 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -44,12 +44,12 @@ func (p *ProcessorImpl[T]) Error(err error) {
 	}
 }
 
-// settle returns the sink to deliver the outcome to. Without one,
-// the first outcome is kept for the subscriber to come.
+// settle keeps the first outcome for subscribers to come and
+// returns the sink to deliver it to, if there is one.
 func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	if p.sink == nil && p.success == nil && p.err == nil {
+	if p.success == nil && p.err == nil {
 		p.success, p.err = success, err
 	}
 	return p.sink
-- 
2.43.0


From 1fd06b7aaf21e65edf7dcbb34387b26cbc17c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:01 +0000
Subject: [PATCH 45/61] fix: a failing mono transformation notifies the error
 signal

---
 go/rx/mono/mono.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/go/rx/mono/mono.go b/go/rx/mono/mono.go
index 68337bd..d41519e 100644
--- a/go/rx/mono/mono.go
+++ b/go/rx/mono/mono.go
@@ -275,7 +275,14 @@ func (b *mapper[S, D]) Async() {
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		if signal == rx.SignalComplete {
+			if _, err := b.Get(); err != nil {
+				signal = rx.SignalError
+			}
+		}
+		fn(signal)
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
-- 
2.43.0


From 477474d56c1d5f7f57cd7662aa08374a67cdc661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:01 +0000
Subject: [PATCH 46/61] fix: a flow goes on after a step that waits for nothing

---
 go/rx/flow/flow.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rx/flow/flow.go b/go/rx/flow/flow.go
index ecbe4ac..b89d5ab 100644
--- a/go/rx/flow/flow.go
+++ b/go/rx/flow/flow.go
@@ -48,7 +48,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	}
 	f.fluxSink.Complete()
 
-	return nil, nil
+	return f.End()
 }
 
 func (f *Flow[T]) Success(value T) (await.Group, error) {
@@ -57,7 +57,7 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	}
 	f.monoSink.Success(value)
 
-	return nil, nil
+	return f.End()
 }
 
 func (f *Flow[T]) Error(err error) (await.Group, error) {
@@ -108,6 +108,10 @@ func (f *Flow[T]) next() {
 	// The next step runs once all of them have ended.
 	// They may end right now or on other goroutines.
 	remaining := int32(len(awaitables))
+	if remaining == 0 {
+		f.next()
+		return
+	}
 	for _, a := range awaitables {
 		a.Async() // Ensure task is running.
 		a.Notify(func(rx.SignalType) {
-- 
2.43.0


From 632764484c090d6e15f9f1a98214046c708855dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 47/61] fix: encoding a codec reports its error

---
 go/transform/transform.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index a4fa130..16dfd27 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -305,11 +305,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From 6a6dcc7d020cd5bcdaaf3b766ecbe539288f6b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:57 +0000
Subject: [PATCH 48/61] fix: decoding a slice reports errors and does not trust
 its size

---
 go/transform/transform.go | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index 16dfd27..3efc4c9 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -374,16 +374,18 @@ func StringEncode[T ~string](val T) (payload.Payload, error) {
 
 func SliceDecode[T any, P MsgPackCodecPtr[T]](raw payload.Payload) ([]T, error) {
 	decoder := msgpack.NewDecoder(raw.Data())
-	size, _ := decoder.ReadArraySize()
-	items := make([]T, size)
-	i := 0
-	for size > 0 {
-		size--
+	size, err := decoder.ReadArraySize()
+	if err != nil {
+		return nil, err
+	}
+	// The size is not trusted before the items are there.
+	items := []T{}
+	for ; size > 0; size-- {
 		var item T
-		p := (P)(&item)
-		p.Decode(&decoder)
-		items[i] = item
-		i++
+		if err := P(&item).Decode(&decoder); err != nil {
+			return nil, err
+		}
+		items = append(items, item)
 	}
 	return items, nil
 }
@@ -392,15 +394,23 @@ func SliceEncode[T any, P MsgPackCodecPtr[T]](items []T) (payload.Payload, error
 	sizer := msgpack.NewSizer()
 	sizer.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
-		p := P(&v)
-		p.Encode(&sizer)
+		if err := P(&v).Encode(&sizer); err != nil {
+			return nil, err
+		}
+	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
 	}
 	buf := make([]byte, sizer.Len())
 	encoder := msgpack.NewEncoder(buf)
 	encoder.WriteArraySize(uint32(len(items)))
 	for _, v := range items {
-		p := P(&v)
-		p.Encode(&encoder)
+		if err := P(&v).Encode(&encoder); err != nil {
+			return nil, err
+		}
+	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
 	}
 	return payload.New(buf), nil
 }
-- 
2.43.0


From e7c3656bfcb6672fee8920e0cc033816547962ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 49/61] fix: the sections of a wasm file are read whole and
 their sizes not trusted

---
 go/transport/wasmrs/customsections/customsections.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/transport/wasmrs/customsections/customsections.go b/go/transport/wasmrs/customsections/customsections.go
index 480e332..9de6b91 100644
--- a/go/transport/wasmrs/customsections/customsections.go
+++ b/go/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,9 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if uint64(size) > uint64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +125,11 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From 1c319fa870829b9a80e0eeba351998670ebb41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 50/61] fix: a guest reads no further than the bytes it was
 sent

---
 go/transport/wasmrs/guest/guest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/transport/wasmrs/guest/guest.go b/go/transport/wasmrs/guest/guest.go
index b336a02..c624f1f 100644
--- a/go/transport/wasmrs/guest/guest.go
+++ b/go/transport/wasmrs/guest/guest.go
@@ -108,6 +108,10 @@ func GuestSend(endPos uint32) {
 	var lengthBuf [4]byte
 	curPos := uint32(0)
 	buf := guestBuffer
+	if endPos < uint32(len(buf)) {
+		// What follows is left over from earlier calls.
+		buf = buf[:endPos]
+	}
 
 	for curPos < endPos {
 		if len(buf) < 3 {
-- 
2.43.0


From 180bb7eebe0c4377efca8be9a0145c017db48c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 51/61] fix: int values that do not fit a 32-bit int are
 refused, not truncated

---
 go/transform/transform.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/go/transform/transform.go b/go/transform/transform.go
index 3efc4c9..ac255b0 100644
--- a/go/transform/transform.go
+++ b/go/transform/transform.go
@@ -1,6 +1,7 @@
 package transform
 
 import (
+	"errors"
 	"time"
 
 	"github.com/nanobus/iota/go/invoke"
@@ -9,6 +10,9 @@ import (
 	"github.com/nanobus/iota/go/rx"
 )
 
+// errIntRange is reported where int has fewer bits than the value needs, as in wasm guests.
+var errIntRange = errors.New("integer overflow")
+
 type Transform[T any] struct {
 	Decode func(raw payload.Payload) (T, error)
 	Encode func(decoded T) (payload.Payload, error)
@@ -34,6 +38,9 @@ var Int = Transform[int]{
 	Decode: func(raw payload.Payload) (int, error) {
 		decoder := msgpack.NewDecoder(raw.Data())
 		val, err := decoder.ReadInt64()
+		if err == nil && int64(int(val)) != val {
+			return 0, errIntRange
+		}
 		return int(val), err
 	},
 	Encode: func(value int) (payload.Payload, error) {
@@ -114,6 +121,9 @@ var Uint = Transform[uint]{
 	Decode: func(raw payload.Payload) (uint, error) {
 		decoder := msgpack.NewDecoder(raw.Data())
 		val, err := decoder.ReadUint64()
+		if err == nil && uint64(uint(val)) != val {
+			return 0, errIntRange
+		}
 		return uint(val), err
 	},
 	Encode: func(value uint) (payload.Payload, error) {
-- 
2.43.0


From 8345064f77873b1a5c5dc7939429da93d8238fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 52/61] fix: a mono processor's later outcome could overtake
 the first while it was being subscribed

---
 go/rx/mono/processor.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/go/rx/mono/processor.go b/go/rx/mono/processor.go
index 63c1787..57e618a 100644
--- a/go/rx/mono/processor.go
+++ b/go/rx/mono/processor.go
@@ -46,11 +46,13 @@ func (p *ProcessorImpl[T]) Error(err error) {
 
 // settle keeps the first outcome for subscribers to come and
 // returns the sink to deliver it to, if there is one.
+// Later outcomes must not overtake it on their way to the sink.
 func (p *ProcessorImpl[T]) settle(success *T, err error) Sink[T] {
 	p.mu.Lock()
 	defer p.mu.Unlock()
-	if p.success == nil && p.err == nil {
-		p.success, p.err = success, err
+	if p.success != nil || p.err != nil {
+		return nil
 	}
+	p.success, p.err = success, err
 	return p.sink
 }
-- 
2.43.0


From 22273be2977cdac1edd4028f10012890a2fbd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 53/61] fix: closing a connection failed a stream while an item
 of it was being delivered

---
 go/proxy/flux.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/go/proxy/flux.go b/go/proxy/flux.go
index 3eb25a5..6de34a8 100644
--- a/go/proxy/flux.go
+++ b/go/proxy/flux.go
@@ -47,6 +47,8 @@ type streamFlux struct {
 	inDone     bool            // The input ended or is not wanted any more.
 	inSub      rx.Subscription // nil until the input is subscribed.
 	inCredit   int             // Demand for input received before that.
+	signals    []func()        // Signals the subscriber has not seen.
+	delivering bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -58,12 +60,14 @@ func (s *streamFlux) StreamID() uint32 {
 }
 
 func (s *streamFlux) OnNext(p payload.Payload) {
-	s.Processor.Next(p)
+	s.deliver(func() {
+		s.Processor.Next(p)
+	})
 }
 
 func (s *streamFlux) OnComplete() {
 	if s.endOutput() {
-		s.Processor.Complete()
+		s.deliver(s.Processor.Complete)
 	}
 }
 
@@ -71,10 +75,33 @@ func (s *streamFlux) OnComplete() {
 func (s *streamFlux) OnError(err error) {
 	s.cancelInput()
 	if s.endOutput() {
-		s.Processor.Error(err)
+		s.deliver(func() {
+			s.Processor.Error(err)
+		})
 	}
 }
 
+// deliver hands a signal to the subscriber, one at a time: the connection
+// can be closed while an item that arrived before is being delivered.
+func (s *streamFlux) deliver(signal func()) {
+	s.mu.Lock()
+	s.signals = append(s.signals, signal)
+	if s.delivering {
+		s.mu.Unlock()
+		return
+	}
+	s.delivering = true
+	for len(s.signals) > 0 {
+		signal := s.signals[0]
+		s.signals = s.signals[1:]
+		s.mu.Unlock()
+		signal()
+		s.mu.Lock()
+	}
+	s.delivering = false
+	s.mu.Unlock()
+}
+
 // OnCancel handles that the responder does not want the input any more.
 func (s *streamFlux) OnCancel() {
 	s.cancelInput()
-- 
2.43.0


From 07978e3c3821e1dfca760480d50a8d6634ffa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 54/61] fix: a request that a host processes while it is closed
 is not served any more

Close cancels the streams it finds. A frame that was being processed at that
moment registered its stream after that, and its producer went on for good.
---
 go/transport/wasmrs/host/instance.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/go/transport/wasmrs/host/instance.go b/go/transport/wasmrs/host/instance.go
index e4ac436..af6d435 100644
--- a/go/transport/wasmrs/host/instance.go
+++ b/go/transport/wasmrs/host/instance.go
@@ -151,6 +151,18 @@ func (i *Instance) registerStream(s proxy.Stream) {
 	// i.streams[s.StreamID()] = s
 }
 
+// registerResponder registers a request of the module, unless Close
+// might not see it any more.
+func (i *Instance) registerResponder(s proxy.Stream) bool {
+	i.closeMu.RLock()
+	defer i.closeMu.RUnlock()
+	if i.closed {
+		return false
+	}
+	i.registerStream(s)
+	return true
+}
+
 func (i *Instance) removeStream(streamID uint32) {
 	if streamID&1 == 1 {
 		i.guestStreams.Remove(streamID)
@@ -375,7 +387,9 @@ func (i *Instance) recvOne(data []byte) {
 
 		// Registered before the handler runs: frames for the stream can follow.
 		s := proxy.NewResponder(ctx, rs.StreamID, i.SendFrame, i.removeStream)
-		i.registerStream(s)
+		if !i.registerResponder(s) {
+			return
+		}
 		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
@@ -394,7 +408,9 @@ func (i *Instance) recvOne(data []byte) {
 
 		// Registered before the handler runs: frames for the stream can follow.
 		s := proxy.NewChannelResponder(ctx, rc.StreamID, i.SendFrame, i.removeStream)
-		i.registerStream(s)
+		if !i.registerResponder(s) {
+			return
+		}
 		go i.handleRequestChannel(ctx, s, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
-- 
2.43.0


From 9bb268e864037560e78c26f418421c9f0c68db37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 55/61] fix: a Rust stream request asks for items

It was sent with an initial demand of zero, so a peer with flow control never sent anything.
---
 rust/crates/wasmrs/src/frames/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 3c2bd0b..10674a2 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -460,7 +460,12 @@ impl Frame {
 
   /// Create a new [RequestStream] frame.
   pub fn new_request_stream(stream_id: u32, payload: Payload, flags: FrameFlags) -> Frame {
-    Frame::RequestStream(RequestStream::from_payload(stream_id, payload, flags, 0))
+    Frame::RequestStream(RequestStream::from_payload(
+      stream_id,
+      payload,
+      flags,
+      Frame::REQUEST_MAX,
+    ))
   }
 
   /// Create a new [RequestChannel] frame.
-- 
2.43.0


From 2ff93d01cb5bd8bb8cc1698ea1298b0469649ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:03 +0000
Subject: [PATCH 56/61] fix: the Rust operation list reader skips reserved
 bytes

They were read as the next operation.
---
 rust/crates/wasmrs/src/operations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index e4d5567..079fcba 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -227,7 +227,8 @@ impl OperationList {
       let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
       let op_len = from_u16_bytes(&buf.split_to(2));
       let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let _reserved_len = from_u16_bytes(&buf.split_to(2));
+      let reserved_len = from_u16_bytes(&buf.split_to(2));
+      let _reserved = buf.split_to(reserved_len as _);
       let op = Operation {
         index,
         kind,
-- 
2.43.0


From dc149de88da0fc00681f3fcc10dbbe459f4aa970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 57/61] fix: a Rust end stops an answer that the peer cancels

The handle that stops it was kept but never used.
---
 rust/crates/wasmrs/src/socket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index 736e656..ab3de45 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -325,6 +325,9 @@ impl WasmSocket {
 
   fn on_cancel(&self, sid: u32, _flag: FrameFlags) {
     trace!(sid, side = %self.side, "on_cancel");
+    if let Some(answer) = self.abort_handles.remove(&sid) {
+      answer.abort();
+    }
     if let Some(handler) = self.handlers.remove(&sid) {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
-- 
2.43.0


From d805f058eb2cdb5c7c5538006510d96d14799014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 58/61] fix: a Rust end does not fail a stream because of
 demand it has no use for

REQUEST_N for a stream it answers was answered with an ERROR, which ended the stream for the peer.
---
 rust/crates/wasmrs/src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index ab3de45..d1e2768 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -270,7 +270,8 @@ impl WasmSocket {
         };
       }
       None => {
-        send_app_error(&tx, sid, "RequestN called for missing Stream ID");
+        // Answers do not wait for demand, and demand may come late.
+        trace!(sid, side = %self.side, "no one waits for demand");
       }
     }
   }
-- 
2.43.0


From 3b5e28bf294d6a3626b018ce0043d3c636795dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:41 +0000
Subject: [PATCH 59/61] fix: an error for a call that its caller gave up does
 not panic in Rust

Nobody takes the error any more; sending it failed and was unwrapped.
---
 rust/crates/wasmrs/src/socket.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/crates/wasmrs/src/socket.rs b/rust/crates/wasmrs/src/socket.rs
index d1e2768..c69a817 100644
--- a/rust/crates/wasmrs/src/socket.rs
+++ b/rust/crates/wasmrs/src/socket.rs
@@ -333,7 +333,7 @@ impl WasmSocket {
       let e = PayloadError::new(ErrorCode::Canceled.into(), "Request cancelled");
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(_) => {
           // stream cancelled. Take no action besides removing the handler.
@@ -351,13 +351,13 @@ impl WasmSocket {
       let e = PayloadError::new(code, message);
       match handler {
         Handler::ReqRR(sender) => {
-          sender.send(Err(e)).unwrap();
+          let _ = sender.send(Err(e));
         }
         Handler::ReqRS(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
         Handler::ReqRC(sender) => {
-          sender.error(e).unwrap();
+          let _ = sender.error(e);
         }
       }
     }
-- 
2.43.0


From c106ec307ecd45aefd6cad9fa9ae00ce55e3b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:51 +0000
Subject: [PATCH 60/61] fix: the Rust frame decoder refuses truncated and
 unknown frames

It panicked, so that a few bytes from the other side ended the process.
---
 rust/crates/wasmrs/src/error.rs                  |  3 +++
 rust/crates/wasmrs/src/frames/f_error.rs         |  4 ++--
 rust/crates/wasmrs/src/frames/f_payload.rs       |  6 +++---
 rust/crates/wasmrs/src/frames/f_request_n.rs     |  4 ++--
 rust/crates/wasmrs/src/frames/header.rs          |  7 ++++++-
 rust/crates/wasmrs/src/frames/mod.rs             | 16 ++++++++++------
 rust/crates/wasmrs/src/frames/request_payload.rs |  8 ++++----
 rust/crates/wasmrs/src/util.rs                   |  8 ++++++++
 8 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/rust/crates/wasmrs/src/error.rs b/rust/crates/wasmrs/src/error.rs
index 73916c5..5b0ee44 100644
--- a/rust/crates/wasmrs/src/error.rs
+++ b/rust/crates/wasmrs/src/error.rs
@@ -14,6 +14,8 @@ pub enum Error {
   ReceiverAlreadyGone,
   /// Variant used when a frame is treated as the wrong type.
   WrongType,
+  /// A frame ended before its fields did.
+  Truncated,
   /// Could not convert string from passed bytes.
   StringConversion,
   /// [crate::Metadata] not found in [crate::Payload]
@@ -28,6 +30,7 @@ impl std::fmt::Display for Error {
       Error::OpList(msg) => f.write_str(msg),
       Error::ReceiverAlreadyGone => f.write_str("Received already taken"),
       Error::WrongType => f.write_str("Tried to decode frame with wrong frame decoder"),
+      Error::Truncated => f.write_str("Frame is truncated"),
       Error::StringConversion => f.write_str("Could not read string bytes"),
       Error::MetadataNotFound => f.write_str("No metadata found"),
     }
diff --git a/rust/crates/wasmrs/src/frames/f_error.rs b/rust/crates/wasmrs/src/frames/f_error.rs
index 4cfbbdd..6e0f7bf 100644
--- a/rust/crates/wasmrs/src/frames/f_error.rs
+++ b/rust/crates/wasmrs/src/frames/f_error.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Frame;
 
 #[derive()]
@@ -33,7 +33,7 @@ impl RSocketFrame<ErrorFrame> for ErrorFrame {
 
     Ok(ErrorFrame {
       stream_id: header.stream_id(),
-      code: from_u32_bytes(&buffer.split_to(4)),
+      code: from_u32_bytes(&take_bytes(&mut buffer, 4)?),
       data: String::from_utf8(buffer.to_vec()).map_err(|_| crate::Error::StringConversion)?,
     })
   }
diff --git a/rust/crates/wasmrs/src/frames/f_payload.rs b/rust/crates/wasmrs/src/frames/f_payload.rs
index 9b021f5..d5a80ef 100644
--- a/rust/crates/wasmrs/src/frames/f_payload.rs
+++ b/rust/crates/wasmrs/src/frames/f_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags, RSocketFrame};
-use crate::util::{from_u24_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, take_bytes, to_u24_bytes};
 use crate::{Frame, Payload};
 
 /// A Payload frame.
@@ -52,8 +52,8 @@ impl RSocketFrame<PayloadFrame> for PayloadFrame {
     Self::check_type(header)?;
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take_bytes(&mut buffer, 3)?) as usize;
+      take_bytes(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/frames/f_request_n.rs b/rust/crates/wasmrs/src/frames/f_request_n.rs
index b588f68..0c4bc98 100644
--- a/rust/crates/wasmrs/src/frames/f_request_n.rs
+++ b/rust/crates/wasmrs/src/frames/f_request_n.rs
@@ -1,7 +1,7 @@
 use bytes::Bytes;
 
 use super::{Error, FrameHeader, FrameType, RSocketFrame};
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Frame;
 
 #[derive(Clone, Copy)]
@@ -31,7 +31,7 @@ impl RSocketFrame<RequestN> for RequestN {
     Self::check_type(header)?;
     Ok(RequestN {
       stream_id: header.stream_id(),
-      n: from_u32_bytes(&buffer.split_to(4)),
+      n: from_u32_bytes(&take_bytes(&mut buffer, 4)?),
     })
   }
 
diff --git a/rust/crates/wasmrs/src/frames/header.rs b/rust/crates/wasmrs/src/frames/header.rs
index 7fa2db7..30fd8f8 100644
--- a/rust/crates/wasmrs/src/frames/header.rs
+++ b/rust/crates/wasmrs/src/frames/header.rs
@@ -42,8 +42,13 @@ impl FrameHeader {
   }
 
   pub(crate) fn frame_type(&self) -> FrameType {
+    self.known_type().unwrap()
+  }
+
+  /// The frame type, if there is one with the header's number.
+  pub(crate) fn known_type(&self) -> Option<FrameType> {
     let id: u8 = self.header[4] >> 2;
-    id.try_into().unwrap()
+    id.try_into().ok()
   }
 
   pub(crate) fn check(&self, flag: FrameFlags) -> bool {
diff --git a/rust/crates/wasmrs/src/frames/mod.rs b/rust/crates/wasmrs/src/frames/mod.rs
index 10674a2..3333b8e 100644
--- a/rust/crates/wasmrs/src/frames/mod.rs
+++ b/rust/crates/wasmrs/src/frames/mod.rs
@@ -12,7 +12,7 @@ pub(crate) mod request_payload;
 
 use bytes::Bytes;
 
-use crate::util::from_u32_bytes;
+use crate::util::{from_u32_bytes, take_bytes};
 use crate::Error;
 
 use self::f_cancel::Cancel;
@@ -301,6 +301,9 @@ impl Payload {
       return Err(crate::Error::MetadataNotFound);
     }
     let bytes = self.metadata.as_ref().unwrap();
+    if bytes.len() < 4 {
+      return Err(crate::Error::MetadataNotFound);
+    }
     let index = from_u32_bytes(&bytes[0..4]);
 
     Ok(Metadata { index })
@@ -390,15 +393,17 @@ impl Frame {
 
   /// Decode [Bytes] into a [Frame].
   pub fn decode(mut bytes: Bytes) -> Result<Frame, (u32, Error)> {
-    let header = FrameHeader::from_bytes(bytes.split_to(Frame::LEN_HEADER));
+    let header = take_bytes(&mut bytes, Frame::LEN_HEADER).map_err(|e| (0, e))?;
+    let header = FrameHeader::from_bytes(header);
     let stream_id = header.stream_id();
+    if header.known_type().is_none() {
+      return Err((stream_id, Error::WrongType));
+    }
     Self::_decode(header, bytes).map_err(|e| (stream_id, e))
   }
 
   pub(crate) fn _decode(header: FrameHeader, buffer: Bytes) -> Result<Frame, Error> {
     let frame = match header.frame_type() {
-      FrameType::Reserved => todo!(),
-      FrameType::Setup => todo!(),
       FrameType::RequestResponse => {
         Frame::RequestResponse(f_request_response::RequestResponse::decode_frame(&header, buffer)?)
       }
@@ -413,8 +418,7 @@ impl Frame {
       }),
       FrameType::Payload => Frame::PayloadFrame(f_payload::PayloadFrame::decode_frame(&header, buffer)?),
       FrameType::Err => Frame::ErrorFrame(f_error::ErrorFrame::decode_frame(&header, buffer)?),
-      FrameType::Ext => todo!(),
-      _ => unreachable!(),
+      _ => return Err(Error::WrongType),
     };
     Ok(frame)
   }
diff --git a/rust/crates/wasmrs/src/frames/request_payload.rs b/rust/crates/wasmrs/src/frames/request_payload.rs
index 034744d..c6e0b89 100644
--- a/rust/crates/wasmrs/src/frames/request_payload.rs
+++ b/rust/crates/wasmrs/src/frames/request_payload.rs
@@ -1,7 +1,7 @@
 use bytes::{BufMut, Bytes, BytesMut};
 
 use super::{Error, FrameFlags, FrameHeader, FrameType, RSocketFlags};
-use crate::util::{from_u24_bytes, from_u32_bytes, to_u24_bytes};
+use crate::util::{from_u24_bytes, from_u32_bytes, take_bytes, to_u24_bytes};
 use crate::{Frame, Payload};
 
 #[derive()]
@@ -57,14 +57,14 @@ impl RequestPayload {
     let frame_type = header.frame_type();
 
     let initial_n = if Self::is_multi(frame_type) {
-      from_u32_bytes(&buffer.split_to(4))
+      from_u32_bytes(&take_bytes(&mut buffer, 4)?)
     } else {
       0
     };
 
     let metadata = if header.has_metadata() {
-      let metadata_len = from_u24_bytes(&buffer.split_to(3)) as usize;
-      buffer.split_to(metadata_len)
+      let metadata_len = from_u24_bytes(&take_bytes(&mut buffer, 3)?) as usize;
+      take_bytes(&mut buffer, metadata_len)?
     } else {
       Bytes::new()
     };
diff --git a/rust/crates/wasmrs/src/util.rs b/rust/crates/wasmrs/src/util.rs
index 21ea618..2e1b417 100644
--- a/rust/crates/wasmrs/src/util.rs
+++ b/rust/crates/wasmrs/src/util.rs
@@ -2,6 +2,14 @@ use std::io::Read;
 
 use bytes::{BufMut, Bytes, BytesMut};
 
+/// Take the first `n` bytes of a buffer, if there are that many.
+pub(crate) fn take_bytes(buffer: &mut Bytes, n: usize) -> Result<Bytes, crate::Error> {
+  if n > buffer.len() {
+    return Err(crate::Error::Truncated);
+  }
+  Ok(buffer.split_to(n))
+}
+
 #[must_use]
 pub(crate) fn from_u32_bytes(bytes: &[u8]) -> u32 {
   assert!(bytes.len() == 4, "Need 4 bytes to convert to u32");
-- 
2.43.0


From 0fd371345cea1d97496a4b9acb078289d1418189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:06 +0000
Subject: [PATCH 61/61] fix: the Rust operation list reader refuses truncated
 lists and unknown operation types

It panicked.
---
 rust/crates/wasmrs/src/operations.rs | 53 +++++++++++++++++-----------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/rust/crates/wasmrs/src/operations.rs b/rust/crates/wasmrs/src/operations.rs
index 079fcba..4117454 100644
--- a/rust/crates/wasmrs/src/operations.rs
+++ b/rust/crates/wasmrs/src/operations.rs
@@ -49,14 +49,15 @@ pub enum OperationType {
   RequestChannel,
 }
 
-impl From<u8> for OperationType {
-  fn from(v: u8) -> Self {
+impl TryFrom<u8> for OperationType {
+  type Error = Error;
+  fn try_from(v: u8) -> Result<Self, Error> {
     match v {
-      1 => Self::RequestResponse,
-      2 => Self::RequestFnF,
-      3 => Self::RequestStream,
-      4 => Self::RequestChannel,
-      _ => unreachable!("Bad Operation Type {}", v),
+      1 => Ok(Self::RequestResponse),
+      2 => Ok(Self::RequestFnF),
+      3 => Ok(Self::RequestStream),
+      4 => Ok(Self::RequestChannel),
+      _ => Err(Error::OperationType),
     }
   }
 }
@@ -76,6 +77,8 @@ impl From<OperationType> for u8 {
 pub enum Error {
   Magic,
   Version,
+  OperationType,
+  Truncated,
   Utf8String,
 }
 
@@ -85,6 +88,8 @@ impl std::fmt::Display for Error {
     f.write_str(match self {
       Error::Magic => "Bad magic bytes",
       Error::Version => "Bad version",
+      Error::OperationType => "Bad operation type",
+      Error::Truncated => "Operation list is truncated",
       Error::Utf8String => "Could not convert bytes to UTF-8 String",
     })
   }
@@ -111,6 +116,14 @@ pub struct OperationList {
   exports: Vec<Operation>,
 }
 
+/// Take the first `n` bytes of a buffer, if there are that many.
+fn take(buf: &mut Bytes, n: usize) -> Result<Bytes, Error> {
+  if n > buf.len() {
+    return Err(Error::Truncated);
+  }
+  Ok(buf.split_to(n))
+}
+
 impl OperationList {
   #[must_use]
   /// Get the index for the imported namespace/operation.
@@ -203,11 +216,11 @@ impl OperationList {
 
   /// Decode bytes into an Operation List.
   pub fn decode(mut buf: Bytes) -> Result<Self, Error> {
-    let magic = buf.split_to(4);
+    let magic = take(&mut buf, 4)?;
     if magic != WASMRS_MAGIC.as_slice() {
       return Err(Error::Magic);
     }
-    let version = from_u16_bytes(&buf.split_to(2));
+    let version = from_u16_bytes(&take(&mut buf, 2)?);
     match version {
       1 => Self::decode_v1(buf),
       _ => Err(Error::Version),
@@ -215,20 +228,20 @@ impl OperationList {
   }
 
   fn decode_v1(mut buf: Bytes) -> Result<Self, Error> {
-    let num_ops = from_u32_bytes(&buf.split_to(4));
+    let num_ops = from_u32_bytes(&take(&mut buf, 4)?);
     let mut imports = Vec::new();
     let mut exports = Vec::new();
     for _ in 0..num_ops {
-      let kind = buf.split_to(1)[0];
-      let kind: OperationType = kind.into();
-      let dir = buf.split_to(1)[0];
-      let index = from_u32_bytes(&buf.split_to(4));
-      let ns_len = from_u16_bytes(&buf.split_to(2));
-      let namespace = String::from_utf8(buf.split_to(ns_len as _).to_vec())?;
-      let op_len = from_u16_bytes(&buf.split_to(2));
-      let operation = String::from_utf8(buf.split_to(op_len as _).to_vec())?;
-      let reserved_len = from_u16_bytes(&buf.split_to(2));
-      let _reserved = buf.split_to(reserved_len as _);
+      let kind = take(&mut buf, 1)?[0];
+      let kind = OperationType::try_from(kind)?;
+      let dir = take(&mut buf, 1)?[0];
+      let index = from_u32_bytes(&take(&mut buf, 4)?);
+      let ns_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let namespace = String::from_utf8(take(&mut buf, ns_len as usize)?.to_vec())?;
+      let op_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let operation = String::from_utf8(take(&mut buf, op_len as usize)?.to_vec())?;
+      let reserved_len = from_u16_bytes(&take(&mut buf, 2)?);
+      let _reserved = take(&mut buf, reserved_len as usize)?;
       let op = Operation {
         index,
         kind,
-- 
2.43.0

