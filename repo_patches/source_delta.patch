From 20eeea02c12fec590dc336470b105e3f1a57e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:02 +0000
Subject: [PATCH 01/49] fix: VarInt loses its prefix when marshalled by value

---
 pkg/protocol/varint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index f296b23..978cd94 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,7 +82,7 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
-func (vi *VarInt) MarshalBinary() ([]byte, error) {
+func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	switch vi.Value.(type) {
-- 
2.43.0


From 1cc10febe1f24c3a785358cccb0f30fbc5370064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 02/49] fix: decoded IPv4 and block locators are discarded

---
 pkg/protocol/blocklocator.go | 4 ++--
 pkg/protocol/netaddr.go      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index a2accce..7857539 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -44,7 +44,7 @@ func (locators BlockLocators) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
-func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
+func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 	d := binary.NewDecoder(r)
 
 	var count VarInt
@@ -67,6 +67,6 @@ func (locators BlockLocators) UnmarshalBinary(r io.Reader) error {
 		hashes[i] = hash
 	}
 
-	locators = hashes
+	*locators = hashes
 	return nil
 }
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index d57fef3..88918fd 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -32,7 +32,7 @@ func (ip IPv4) String() string {
 }
 
 // UnmarshalBinary implements the binary.Marshaler interface
-func (ip IPv4) UnmarshalBinary(r io.Reader) error {
+func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
 	if _, err := r.Read(data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
-- 
2.43.0


From dd26d3ceb8bca8153673ee087e4cd73dff6728c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:06 +0000
Subject: [PATCH 03/49] fix: short reads corrupt decoded messages

---
 pkg/binary/unmarshaler.go | 2 +-
 pkg/protocol/msg.go       | 4 ++--
 pkg/protocol/netaddr.go   | 7 +------
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index 5eac02c..f2c8e20 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -152,7 +152,7 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
-	if _, err := io.LimitReader(d.r, len).Read(out); err != nil {
+	if _, err := io.ReadFull(io.LimitReader(d.r, len), out); err != nil {
 		return err
 	}
 
diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 5eed0c0..7dd144a 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -108,13 +108,13 @@ func newVarStr(str string) VarStr {
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
 	lengthBuf := make([]byte, 1)
-	if _, err := r.Read(lengthBuf); err != nil {
+	if _, err := io.ReadFull(r, lengthBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.Length = uint8(lengthBuf[0])
 
 	stringBuf := make([]byte, v.Length)
-	if _, err := r.Read(stringBuf); err != nil {
+	if _, err := io.ReadFull(r, stringBuf); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
diff --git a/pkg/protocol/netaddr.go b/pkg/protocol/netaddr.go
index 88918fd..b44d3c7 100644
--- a/pkg/protocol/netaddr.go
+++ b/pkg/protocol/netaddr.go
@@ -1,7 +1,6 @@
 package protocol
 
 import (
-	"errors"
 	"fmt"
 	"io"
 )
@@ -34,14 +33,10 @@ func (ip IPv4) String() string {
 // UnmarshalBinary implements the binary.Marshaler interface
 func (ip *IPv4) UnmarshalBinary(r io.Reader) error {
 	data := make([]byte, 16)
-	if _, err := r.Read(data); err != nil {
+	if _, err := io.ReadFull(r, data); err != nil {
 		return fmt.Errorf("unmarshal IPv4: %+v", err)
 	}
 
-	if len(data) != 16 {
-		return errors.New("invalid IPv4: wrong length")
-	}
-
 	ipv4 := data[12:16]
 	copy(ip[:], ipv4)
 
-- 
2.43.0


From c78356e002dd8e26cb53cd8e1311821f868ab915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 04/49] fix: peer-controlled lengths allocate unbounded memory

---
 pkg/binary/unmarshaler.go    | 9 ++++++---
 pkg/protocol/blocklocator.go | 9 +++++++--
 pkg/protocol/msg_headers.go  | 4 ++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/binary/unmarshaler.go b/pkg/binary/unmarshaler.go
index f2c8e20..e87c193 100644
--- a/pkg/binary/unmarshaler.go
+++ b/pkg/binary/unmarshaler.go
@@ -146,9 +146,12 @@ func (d Decoder) DecodeBytes(len int64) ([]byte, error) {
 		return []byte{byte(val)}, err
 	}
 
-	out := make([]byte, len)
-	err := d.decodeArray(len, out)
-	return out, err
+	// the length comes from the peer: grow with the received data
+	var out bytes.Buffer
+	if _, err := io.CopyN(&out, d.r, len); err != nil {
+		return nil, err
+	}
+	return out.Bytes(), nil
 }
 
 func (d Decoder) decodeArray(len int64, out []byte) error {
diff --git a/pkg/protocol/blocklocator.go b/pkg/protocol/blocklocator.go
index 7857539..28bcda6 100644
--- a/pkg/protocol/blocklocator.go
+++ b/pkg/protocol/blocklocator.go
@@ -2,6 +2,7 @@ package protocol
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 
 	"github.com/vulpemventures/neutrino-elements/pkg/binary"
@@ -57,14 +58,18 @@ func (locators *BlockLocators) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	hashes := make([][32]byte, numberOfBlockLocatorHashes)
+	if numberOfBlockLocatorHashes > maxBlockLocatorsPerMsg {
+		return fmt.Errorf("too many block locator hashes (max: %d)", maxBlockLocatorsPerMsg)
+	}
+
+	hashes := make([][32]byte, 0)
 
 	for i := 0; i < numberOfBlockLocatorHashes; i++ {
 		var hash [hashLen]byte
 		if err := d.Decode(&hash); err != nil {
 			return err
 		}
-		hashes[i] = hash
+		hashes = append(hashes, hash)
 	}
 
 	*locators = hashes
diff --git a/pkg/protocol/msg_headers.go b/pkg/protocol/msg_headers.go
index 6bd9762..a2c3a20 100644
--- a/pkg/protocol/msg_headers.go
+++ b/pkg/protocol/msg_headers.go
@@ -31,7 +31,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	headers := make([]*block.Header, numberOfHeaders)
+	headers := make([]*block.Header, 0)
 
 	for i := 0; i < numberOfHeaders; i++ {
 		header, err := block.DeserializeHeader(&headersBytes)
@@ -39,7 +39,7 @@ func (msgHeaders *MsgHeaders) UnmarshalBinary(r io.Reader) error {
 			return err
 		}
 
-		headers[i] = header
+		headers = append(headers, header)
 
 		// assume that we read a "block" with zero transactions
 		var tmpLen VarInt
-- 
2.43.0


From c67e8eaf0192429f883104ed2d7b5ccdd643a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 05/49] fix: inv and getdata counts are varints

---
 pkg/protocol/msg_getdata.go | 2 +-
 pkg/protocol/msg_inv.go     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/protocol/msg_getdata.go b/pkg/protocol/msg_getdata.go
index 06b9834..6ca244b 100644
--- a/pkg/protocol/msg_getdata.go
+++ b/pkg/protocol/msg_getdata.go
@@ -8,7 +8,7 @@ import (
 
 // MsgGetData represents 'getdata' message.
 type MsgGetData struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
diff --git a/pkg/protocol/msg_inv.go b/pkg/protocol/msg_inv.go
index d85e6e1..70ed012 100644
--- a/pkg/protocol/msg_inv.go
+++ b/pkg/protocol/msg_inv.go
@@ -16,7 +16,7 @@ const (
 
 // MsgInv represents 'inv' message.
 type MsgInv struct {
-	Count     uint8 // TODO: Change to var_int
+	Count     VarInt
 	Inventory []InvVector
 }
 
@@ -28,7 +28,12 @@ func (inv *MsgInv) UnmarshalBinary(r io.Reader) error {
 		return err
 	}
 
-	for i := uint8(0); i < inv.Count; i++ {
+	count, err := inv.Count.Int()
+	if err != nil {
+		return err
+	}
+
+	for i := 0; i < count; i++ {
 		var v InvVector
 
 		if err := d.Decode(&v); err != nil {
-- 
2.43.0


From 4c3ae5297c50c15313bfb7dbecf63e8969812300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 06/49] fix: string lengths are varints

---
 pkg/protocol/msg.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/protocol/msg.go b/pkg/protocol/msg.go
index 7dd144a..3caf512 100644
--- a/pkg/protocol/msg.go
+++ b/pkg/protocol/msg.go
@@ -94,27 +94,36 @@ func (mh MessageHeader) HasValidMagic() bool {
 
 // VarStr ...
 type VarStr struct {
-	Length uint8
+	Length VarInt
 	String string
 }
 
 func newVarStr(str string) VarStr {
 	return VarStr{
-		Length: uint8(len(str)), // TODO: implement var_int
+		Length: newFromInt(len(str)),
 		String: str,
 	}
 }
 
 // UnmarshalBinary implements the binary.Unmarshaler interface
 func (v *VarStr) UnmarshalBinary(r io.Reader) error {
-	lengthBuf := make([]byte, 1)
-	if _, err := io.ReadFull(r, lengthBuf); err != nil {
+	d := binary.NewDecoder(r)
+	if err := d.Decode(&v.Length); err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
-	v.Length = uint8(lengthBuf[0])
 
-	stringBuf := make([]byte, v.Length)
-	if _, err := io.ReadFull(r, stringBuf); err != nil {
+	length, err := v.Length.Int()
+	if err != nil {
+		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
+	}
+
+	v.String = ""
+	if length == 0 {
+		return nil
+	}
+
+	stringBuf, err := d.DecodeBytes(int64(length))
+	if err != nil {
 		return fmt.Errorf("varStr.UnmarshalBinary: %+v", err)
 	}
 	v.String = string(stringBuf)
-- 
2.43.0


From e0f5fa56c714e98bb0b41c89f622ccdd8dee9798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 07/49] fix: cfilter messages cannot be encoded

---
 pkg/protocol/msg_cfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/protocol/msg_cfilter.go b/pkg/protocol/msg_cfilter.go
index afc31cf..87eff66 100644
--- a/pkg/protocol/msg_cfilter.go
+++ b/pkg/protocol/msg_cfilter.go
@@ -32,14 +32,14 @@ func NewMsgCFilter(network Magic, blockHash *chainhash.Hash, filter *gcs.Filter)
 	return NewMessage("cfilter", network, payload)
 }
 
-func (msg *MsgCFilter) MarshalBinary() ([]byte, error) {
+func (msg MsgCFilter) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
 	if err := buf.WriteByte(msg.FilterType); err != nil {
 		return nil, err
 	}
 
-	b, err := binary.Marshal(msg.BlockHash)
+	b, err := binary.Marshal([hashLen]byte(*msg.BlockHash))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 803bcb5235c2666c2624b3fa37747d3a9f0d27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 08/49] fix: stopping the node leaves its monitors running

---
 pkg/node/cmd_block.go       | 2 +-
 pkg/node/cmd_cfilter.go     | 2 +-
 pkg/node/cmd_getcfilters.go | 2 +-
 pkg/node/cmd_getheaders.go  | 2 +-
 pkg/node/cmd_headers.go     | 2 +-
 pkg/node/cmd_inv.go         | 2 +-
 pkg/node/cmd_ping.go        | 2 +-
 pkg/node/cmd_pong.go        | 2 +-
 pkg/node/cmd_sendcmpct.go   | 2 +-
 pkg/node/cmd_skip.go        | 2 +-
 pkg/node/cmd_tx.go          | 2 +-
 pkg/node/cmd_verack.go      | 2 +-
 pkg/node/cmd_version.go     | 2 +-
 pkg/node/node.go            | 7 +++----
 14 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 21cf16c..44cd38e 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 1a27c2c..04df700 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 105506c..ebafe7b 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,7 +13,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index 096664c..cfa7752 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 6bb9c91..d1207b1 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,7 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index f44e0dd..cb7e82f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index d2e7dfd..ffd8f72 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 62e3c58..89fe26e 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,7 +8,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index fb07790..8fa10fd 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
 	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 98e3be7..89182d7 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,7 +10,7 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 8b51438..800a425 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,7 +9,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
 	lr := io.LimitReader(p.Connection(), int64(header.Length))
diff --git a/pkg/node/cmd_verack.go b/pkg/node/cmd_verack.go
index 47e353e..3d43dfb 100644
--- a/pkg/node/cmd_verack.go
+++ b/pkg/node/cmd_verack.go
@@ -5,6 +5,6 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVerack(header *protocol.MessageHeader, p peer.Peer) error {
 	return nil
 }
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index 0c48ac4..d025789 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,7 +10,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 0463eae..2f9a975 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -89,14 +89,14 @@ func New(config NodeConfig) (NodeService, error) {
 	}, nil
 }
 
-func (n node) GetChainTip() (*block.Header, error) {
+func (n *node) GetChainTip() (*block.Header, error) {
 	return n.blockHeadersDb.ChainTip(context.Background())
 }
 
 // AddOutboundPeer sends a new version message to a new peer
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
-func (n node) AddOutboundPeer(outbound peer.Peer) error {
+func (n *node) AddOutboundPeer(outbound peer.Peer) error {
 	if _, ok := n.Peers[outbound.ID()]; ok {
 		return fmt.Errorf("peer already known by node")
 	}
@@ -117,8 +117,7 @@ func (n node) AddOutboundPeer(outbound peer.Peer) error {
 }
 
 // Start starts a node and add an initial outbound peer.
-func (n node) Start(initialOutboundPeerAddr string) error {
-	n.quit = make(chan struct{})
+func (n *node) Start(initialOutboundPeerAddr string) error {
 	initialPeer, err := peer.NewElementsPeer(initialOutboundPeerAddr)
 	if err != nil {
 		return err
-- 
2.43.0


From 66dcb79018b0a8ea04aa2d92c1c21fd15cdff8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 09/49] fix: a malformed message makes the node lose its place
 in the peer's stream

---
 pkg/node/cmd_block.go       |   5 +-
 pkg/node/cmd_cfilter.go     |   5 +-
 pkg/node/cmd_getcfilters.go |   5 +-
 pkg/node/cmd_getheaders.go  |   5 +-
 pkg/node/cmd_headers.go     |   7 +-
 pkg/node/cmd_inv.go         |   5 +-
 pkg/node/cmd_ping.go        |   5 +-
 pkg/node/cmd_pong.go        |   5 +-
 pkg/node/cmd_sendcmpct.go   |   5 +-
 pkg/node/cmd_skip.go        |   5 +-
 pkg/node/cmd_tx.go          |   5 +-
 pkg/node/cmd_version.go     |   5 +-
 pkg/node/node.go            | 174 +++++++++++++++++++-----------------
 13 files changed, 116 insertions(+), 120 deletions(-)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index 44cd38e..d0905d2 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -11,7 +11,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleBlock(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var msgBlock protocol.MsgBlock
 
 	_, err := n.blockHeadersDb.ChainTip(context.Background())
@@ -19,8 +19,7 @@ func (n *node) handleBlock(header *protocol.MessageHeader, p peer.Peer) error {
 		return err
 	}
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&msgBlock); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&msgBlock); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 04df700..0b4fa46 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleCFilter(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleCFilter(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var cfilter protocol.MsgCFilter
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&cfilter); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&cfilter); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index ebafe7b..88eefbc 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -13,10 +13,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
 
-func (n *node) handleGetCFilters(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetCFilters(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getCFilters protocol.MsgGetCFilters
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getCFilters); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getCFilters); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_getheaders.go b/pkg/node/cmd_getheaders.go
index cfa7752..54d1724 100644
--- a/pkg/node/cmd_getheaders.go
+++ b/pkg/node/cmd_getheaders.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleGetHeaders(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleGetHeaders(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var getHeaders protocol.MsgGetHeaders
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&getHeaders); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&getHeaders); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index d1207b1..372e2a8 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -12,13 +12,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleHeaders(msgHeader *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleHeaders(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var headers protocol.MsgHeaders
 
-	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(msgHeader.Length))
-
-	if err := binary.NewDecoder(lr).Decode(&headers); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&headers); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index cb7e82f..e61cd0f 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleInv(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleInv(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var inv protocol.MsgInv
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&inv); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&inv); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index ffd8f72..93c984c 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -8,12 +8,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePing(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePing(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var ping protocol.MsgPing
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&ping); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&ping); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 89fe26e..69a47e5 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -8,11 +8,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handlePong(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handlePong(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var pong protocol.MsgPing
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&pong); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&pong); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_sendcmpct.go b/pkg/node/cmd_sendcmpct.go
index 8fa10fd..e147da3 100644
--- a/pkg/node/cmd_sendcmpct.go
+++ b/pkg/node/cmd_sendcmpct.go
@@ -9,10 +9,9 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleSendCmpct(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleSendCmpct(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var sendCmpct protocol.MsgSendCmpct
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&sendCmpct); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&sendCmpct); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_skip.go b/pkg/node/cmd_skip.go
index 89182d7..ddd5ae8 100644
--- a/pkg/node/cmd_skip.go
+++ b/pkg/node/cmd_skip.go
@@ -10,11 +10,10 @@ import (
 )
 
 // skipMessage is using to skip unhandled messages coming from peers
-func (n *node) skipMessage(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) skipMessage(header *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	logrus.Debugf("skipping message: %s", header.Command)
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if _, err := binary.NewDecoder(lr).ReadUntilEOF(); err != nil {
+	if _, err := binary.NewDecoder(payload).ReadUntilEOF(); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_tx.go b/pkg/node/cmd_tx.go
index 800a425..f7e7109 100644
--- a/pkg/node/cmd_tx.go
+++ b/pkg/node/cmd_tx.go
@@ -9,11 +9,10 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleTx(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleTx(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var tx protocol.MsgTx
 
-	lr := io.LimitReader(p.Connection(), int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&tx); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&tx); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_version.go b/pkg/node/cmd_version.go
index d025789..9f79616 100644
--- a/pkg/node/cmd_version.go
+++ b/pkg/node/cmd_version.go
@@ -10,12 +10,11 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
 )
 
-func (n *node) handleVersion(header *protocol.MessageHeader, p peer.Peer) error {
+func (n *node) handleVersion(_ *protocol.MessageHeader, payload io.Reader, p peer.Peer) error {
 	var version protocol.MsgVersion
 
 	conn := p.Connection()
-	lr := io.LimitReader(conn, int64(header.Length))
-	if err := binary.NewDecoder(lr).Decode(&version); err != nil {
+	if err := binary.NewDecoder(payload).Decode(&version); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 2f9a975..844aabc 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -162,106 +162,116 @@ func (n *node) getBestPeerForSync() peer.Peer {
 
 // handlePeerMessages handles messages coming from peers.
 func (n *node) handlePeerMessages(p peer.Peer) {
-	defer func() {
-		if r := recover(); r != nil {
-			log.Infof("recovered handlePeerMessages: %v", string(debug.Stack()))
-			n.handlePeerMessages(p)
-		}
-	}()
-
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
-Loop:
 	for {
-		nn, err := conn.Read(tmp)
-		if err != nil {
+		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-			n.DisconCh <- p.ID()
-			break Loop
+			n.notifyDisconnected(p)
+			return
 		}
 
 		var msgHeader protocol.MessageHeader
-		if err := binary.NewDecoder(bytes.NewReader(tmp[:nn])).Decode(&msgHeader); err != nil {
+		if err := binary.NewDecoder(bytes.NewReader(tmp)).Decode(&msgHeader); err != nil {
 			logrus.Debugf("decoding header failed: %+v", err)
-			continue
+			n.notifyDisconnected(p)
+			return
 		}
 
+		// with another magic the stream is not (or no longer) made of messages of our network
+		if msgHeader.Magic != n.Network {
+			logrus.Errorf("unexpected network magic from peer %s", p.ID())
+			n.notifyDisconnected(p)
+			return
+		}
+
+		// the next message starts after the payload, whatever the handler reads of it
+		payload := io.LimitReader(conn, int64(msgHeader.Length))
+
 		if err := msgHeader.Validate(); err != nil {
 			logrus.Debugf("validate header failed: %+v", err)
-			continue
+		} else {
+			n.handleMessage(&msgHeader, payload, p)
 		}
 
-		logrus.Debugf("received message: %s", msgHeader.Command)
+		if _, err := io.Copy(io.Discard, payload); err != nil {
+			logrus.Debugf("skipping payload failed: %+v", err)
+		}
+	}
+}
 
-		switch msgHeader.CommandString() {
-		case "version":
-			if err := n.handleVersion(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'version': %+v", err)
-				continue
-			}
-		case "verack":
-			if err := n.handleVerack(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'verack': %+v", err)
-				continue
-			}
-		case "ping":
-			if err := n.handlePing(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'ping': %+v", err)
-				continue
-			}
-		case "pong":
-			if err := n.handlePong(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'pong': %+v", err)
-				continue
-			}
-		case "inv":
-			if err := n.handleInv(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'inv': %+v", err)
-				continue
-			}
-		case "tx":
-			if err := n.handleTx(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'tx': %+v", err)
-				continue
-			}
-		case "block":
-			if err := n.handleBlock(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'block': %+v", err)
-				continue
-			}
-		case "sendcmpct":
-			if err := n.handleSendCmpct(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
-				continue
-			}
-		case "getheaders":
-			if err := n.handleGetHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getheaders': %+v", err)
-				continue
-			}
-		case "headers":
-			if err := n.handleHeaders(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'headers': %+v", err)
-				continue
-			}
-		case "cfilter":
-			if err := n.handleCFilter(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'cfilter': %+v", err)
-				continue
-			}
-		case "getcfilters":
-			if err := n.handleGetCFilters(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to handle 'getcfilters': %+v", err)
-				continue
-			}
-		default:
-			if err := n.skipMessage(&msgHeader, p); err != nil {
-				logrus.Errorf("failed to skip message: %+v", err)
-				continue
-			}
+// notifyDisconnected tells the peers' monitor that a peer is gone.
+func (n *node) notifyDisconnected(p peer.Peer) {
+	select {
+	case n.DisconCh <- p.ID():
+	case <-n.quit:
+	}
+}
+
+// handleMessage handles one message, payload is limited to its content.
+func (n *node) handleMessage(msgHeader *protocol.MessageHeader, payload io.Reader, p peer.Peer) {
+	defer func() {
+		if r := recover(); r != nil {
+			log.Infof("recovered handleMessage: %v", string(debug.Stack()))
 		}
+	}()
+
+	logrus.Debugf("received message: %s", msgHeader.Command)
 
+	switch msgHeader.CommandString() {
+	case "version":
+		if err := n.handleVersion(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'version': %+v", err)
+		}
+	case "verack":
+		if err := n.handleVerack(msgHeader, p); err != nil {
+			logrus.Errorf("failed to handle 'verack': %+v", err)
+		}
+	case "ping":
+		if err := n.handlePing(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'ping': %+v", err)
+		}
+	case "pong":
+		if err := n.handlePong(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'pong': %+v", err)
+		}
+	case "inv":
+		if err := n.handleInv(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'inv': %+v", err)
+		}
+	case "tx":
+		if err := n.handleTx(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'tx': %+v", err)
+		}
+	case "block":
+		if err := n.handleBlock(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'block': %+v", err)
+		}
+	case "sendcmpct":
+		if err := n.handleSendCmpct(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'sendcmpct': %+v", err)
+		}
+	case "getheaders":
+		if err := n.handleGetHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getheaders': %+v", err)
+		}
+	case "headers":
+		if err := n.handleHeaders(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'headers': %+v", err)
+		}
+	case "cfilter":
+		if err := n.handleCFilter(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'cfilter': %+v", err)
+		}
+	case "getcfilters":
+		if err := n.handleGetCFilters(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to handle 'getcfilters': %+v", err)
+		}
+	default:
+		if err := n.skipMessage(msgHeader, payload, p); err != nil {
+			logrus.Errorf("failed to skip message: %+v", err)
+		}
 	}
 }
 
-- 
2.43.0


From d100666b448bdb1c50783c477ae5143b8413e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:11 +0000
Subject: [PATCH 10/49] fix: ping and pong races disconnect live peers or block
 the peers monitor

---
 pkg/node/handle_ping.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d421fe4..d291033 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -22,7 +22,8 @@ func (n *node) addPeer(peer peer.Peer) error {
 
 	id := peer.ID()
 	n.Peers[id] = peer
-	n.peersPongCh[id] = make(chan uint64)
+	// one slot: the peer's monitor may have stopped waiting for the pong
+	n.peersPongCh[id] = make(chan uint64, 1)
 
 	if len(n.Peers) == 1 {
 		logrus.Infof("node: start sync block headers with peer: %s", peer.ID())
@@ -89,29 +90,38 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				logrus.Fatalf("monitorPeer, binary.Marshal: %v", err)
 			}
 
+			// register the nonce before the pong can arrive
+			select {
+			case n.pingsCh <- peerPing{
+				nonce:  nonce,
+				peerID: peer.ID(),
+			}:
+			case <-n.quit:
+				return
+			}
+
 			if _, err := peer.Connection().Write(msg); err != nil {
-				n.disconnectPeer(peer.ID())
+				n.notifyDisconnected(peer)
+				return
 			}
 
 			logrus.Debugf("sent 'ping' to %s", peer)
 
-			n.pingsCh <- peerPing{
-				nonce:  nonce,
-				peerID: peer.ID(),
-			}
-
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
 			case pn := <-n.peersPongCh[peer.ID()]:
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
-					n.DisconCh <- peer.ID()
+					n.notifyDisconnected(peer)
 					return
 				}
 				logrus.Debugf("got 'pong' from %s", peer)
 			case <-t.C:
-				n.DisconCh <- peer.ID()
+				n.notifyDisconnected(peer)
+				return
+			case <-n.quit:
+				t.Stop()
 				return
 			}
 
-- 
2.43.0


From 0f6fad08d385894dde83e5da7777a9841abdd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 11/49] fix: the node's peers are accessed by several
 goroutines without lock

---
 pkg/node/chainsync.go   | 10 ++++------
 pkg/node/handle_ping.go | 23 ++++++++++++++++++----
 pkg/node/node.go        | 43 +++++++++++++++++++++++++++++------------
 3 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index bef86ef..b6ef4b2 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -58,7 +58,7 @@ func (n *node) getGenesisBlockHash() (*chainhash.Hash, error) {
 func (n *node) syncWithPeer(peerID peer.PeerID) error {
 	log.Infof("node: syncing block headers with peer: %s ...", peerID)
 
-	p := n.Peers[peerID]
+	p := n.getPeer(peerID)
 
 	if p == nil {
 		return fmt.Errorf("peer %s not found", peerID)
@@ -106,11 +106,9 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 
 func (n *node) sync(p peer.Peer) {
 	if p == nil {
-		for _, bestPeer := range n.Peers {
-			if bestPeer != nil {
-				p = bestPeer
-				break
-			}
+		p = n.getBestPeerForSync()
+		if p == nil {
+			return
 		}
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d291033..c9b378c 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -16,6 +16,9 @@ type peerPing struct {
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
+	n.peersMtx.Lock()
+	defer n.peersMtx.Unlock()
+
 	if _, found := n.Peers[peer.ID()]; found {
 		return fmt.Errorf("peer already known: %s", peer.ID())
 	}
@@ -33,6 +36,18 @@ func (n *node) addPeer(peer peer.Peer) error {
 	return nil
 }
 
+// peerPongCh returns the chan receiving the pongs of a connected peer, nil if it is gone.
+func (n *node) peerPongCh(peerID peer.PeerID) chan uint64 {
+	n.peersMtx.RLock()
+	defer n.peersMtx.RUnlock()
+
+	if n.Peers[peerID] == nil {
+		return nil
+	}
+
+	return n.peersPongCh[peerID]
+}
+
 func (n *node) monitorPeers() {
 	peerPings := make(map[uint64]peer.PeerID)
 
@@ -45,12 +60,12 @@ func (n *node) monitorPeers() {
 			if peerID == "" {
 				break
 			}
-			p := n.Peers[peerID]
-			if p == nil {
+			pongCh := n.peerPongCh(peerID)
+			if pongCh == nil {
 				break
 			}
 
-			n.peersPongCh[peerID] <- nonce
+			pongCh <- nonce
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
@@ -110,7 +125,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peersPongCh[peer.ID()]:
+			case pn := <-n.peerPongCh(peer.ID()):
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
 					n.notifyDisconnected(peer)
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 844aabc..e449418 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -37,6 +37,8 @@ type node struct {
 	pingsCh     chan peerPing
 	pongsCh     chan uint64
 	peersPongCh map[peer.PeerID]chan uint64
+	// peersMtx protects Peers and peersPongCh
+	peersMtx sync.RWMutex
 
 	DisconCh  chan peer.PeerID
 	UserAgent string
@@ -97,7 +99,7 @@ func (n *node) GetChainTip() (*block.Header, error) {
 // returns an error if the peer is already connected.
 // it also starts a goroutine to monitor the peer's messages.
 func (n *node) AddOutboundPeer(outbound peer.Peer) error {
-	if _, ok := n.Peers[outbound.ID()]; ok {
+	if n.getPeer(outbound.ID()) != nil {
 		return fmt.Errorf("peer already known by node")
 	}
 
@@ -146,12 +148,19 @@ func (n *node) Stop() error {
 	return nil
 }
 
+// getPeer returns a connected peer, nil if it is unknown.
+func (n *node) getPeer(peerID peer.PeerID) peer.Peer {
+	n.peersMtx.RLock()
+	defer n.peersMtx.RUnlock()
+
+	return n.Peers[peerID]
+}
+
 // Return the best peer (now randomly)
 // TODO : implement a better way to select the best peer (eg. by latency)
 func (n *node) getBestPeerForSync() peer.Peer {
-	if len(n.Peers) == 0 {
-		return nil
-	}
+	n.peersMtx.RLock()
+	defer n.peersMtx.RUnlock()
 
 	for _, p := range n.Peers {
 		return p
@@ -310,6 +319,9 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 func (n *node) disconnectPeer(peerID peer.PeerID) {
 	logrus.Debugf("disconnecting peer %s", peerID)
 
+	n.peersMtx.Lock()
+	defer n.peersMtx.Unlock()
+
 	peer := n.Peers[peerID]
 	if peer == nil {
 		return
@@ -334,7 +346,7 @@ func (n *node) monitorBlockHeaders() {
 
 			log.Debugf("node: new block header: %v\n", newHeader.Height)
 
-			if len(n.Peers) > 0 {
+			if bestPeer := n.getBestPeerForSync(); bestPeer != nil {
 				hash, err := newHeader.Hash()
 				if err != nil {
 					logrus.Error(err)
@@ -353,8 +365,7 @@ func (n *node) monitorBlockHeaders() {
 					continue
 				}
 
-				conn := n.getBestPeerForSync().Connection()
-				err = n.sendMessage(conn, msg)
+				err = n.sendMessage(bestPeer.Connection(), msg)
 				if err != nil {
 					logrus.Error(err)
 					continue
@@ -400,12 +411,20 @@ func (n *node) SendTransaction(txhex string) error {
 		return err
 	}
 
-	for _, peer := range n.Peers {
-		err = n.sendMessage(peer.Connection(), msg)
-		if err != nil {
-			return err
+	n.peersMtx.RLock()
+	peers := make([]peer.Peer, 0, len(n.Peers))
+	for _, p := range n.Peers {
+		peers = append(peers, p)
+	}
+	n.peersMtx.RUnlock()
+
+	// a failing peer must not keep the transaction from the others
+	var sendErr error
+	for _, p := range peers {
+		if err := n.sendMessage(p.Connection(), msg); err != nil {
+			sendErr = err
 		}
 	}
 
-	return nil
+	return sendErr
 }
-- 
2.43.0


From 98e10cafda1708678b7879a2e3a4008c61c984c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 12/49] fix: the node reports being synced before it knows the
 peer's tip

---
 pkg/node/chainsync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index b6ef4b2..ac6f868 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -20,6 +20,11 @@ var zeroHash [32]byte = [32]byte{
 }
 
 func (n *node) synced(p peer.Peer) (bool, error) {
+	// the tip of a peer is unknown before its version message
+	if n.getPeer(p.ID()) == nil {
+		return false, nil
+	}
+
 	chainTip, err := n.blockHeadersDb.ChainTip(context.Background())
 	if err != nil {
 		return false, err
-- 
2.43.0


From 1093d09d24379211ad7520de78d2688edd0e2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:58 +0000
Subject: [PATCH 13/49] fix: getcfilters is not answered for the start block
 nor in block order

---
 pkg/node/cmd_getcfilters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/node/cmd_getcfilters.go b/pkg/node/cmd_getcfilters.go
index 88eefbc..ee14398 100644
--- a/pkg/node/cmd_getcfilters.go
+++ b/pkg/node/cmd_getcfilters.go
@@ -41,7 +41,9 @@ func (n *node) handleGetCFilters(_ *protocol.MessageHeader, payload io.Reader, p
 		return fmt.Errorf("end height is too far away from start height")
 	}
 
-	for height := endBlockHeader.Height; height > getCFilters.StartHeight; height-- {
+	count := endBlockHeader.Height - getCFilters.StartHeight + 1
+	for i := uint32(0); i < count; i++ {
+		height := getCFilters.StartHeight + i
 		blockHash, err := n.blockHeadersDb.GetBlockHashByHeight(context.Background(), height)
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From c3bfc6463b3d9d8f7c9ffe710e4089596e9881cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 14/49] fix: the tip header is stored again when a batch starts
 with it

---
 pkg/node/cmd_headers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 372e2a8..a7cc878 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -55,9 +55,9 @@ func (n *node) handleHeaders(_ *protocol.MessageHeader, payload io.Reader, p pee
 		return nil
 	}
 
-	//in case received headers portion has first header block height less than tip
+	//in case received headers portion has first header block height not above tip
 	//check if there are other received headers that are continuation of the tip in sequence
-	if firstHeaderBlockHeight < tip.Height && lastHeaderBlockHeight > tip.Height {
+	if firstHeaderBlockHeight <= tip.Height && lastHeaderBlockHeight > tip.Height {
 		newHeaders := make([]*block.Header, 0)
 		for _, header := range headers.Headers {
 			if header.Height > tip.Height {
-- 
2.43.0


From 00507a871c6e3bd56fc845e188ea3e3996bf88e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 15/49] fix: headers that are not children of the stored chain
 are stored

---
 pkg/node/cmd_block.go   |  5 +++++
 pkg/node/cmd_headers.go | 23 +++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index d0905d2..a87f6cf 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"context"
+	"fmt"
 	"github.com/vulpemventures/go-elements/block"
 	"io"
 
@@ -50,6 +51,10 @@ func (n *node) handleBlock(_ *protocol.MessageHeader, payload io.Reader, p peer.
 
 		return nil
 	}
+	if !checkHeadersLinked(tip, []*block.Header{msgBlock.Header}) {
+		return fmt.Errorf("block from peer %s doesn't extend the tip", p.ID())
+	}
+
 	n.blockHeadersCh <- *msgBlock.Header
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index a7cc878..300fb93 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -1,7 +1,9 @@
 package node
 
 import (
+	"bytes"
 	"context"
+	"fmt"
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
@@ -71,6 +73,10 @@ func (n *node) handleHeaders(_ *protocol.MessageHeader, payload io.Reader, p pee
 	}
 
 	if len(headers.Headers) > 0 {
+		if !checkHeadersLinked(tip, headers.Headers) {
+			return fmt.Errorf("headers from peer %s don't extend the tip", p.ID())
+		}
+
 		for _, v := range headers.Headers {
 			n.blockHeadersCh <- *v
 		}
@@ -84,6 +90,23 @@ func (n *node) handleHeaders(_ *protocol.MessageHeader, payload io.Reader, p pee
 	return nil
 }
 
+// checkHeadersLinked returns true if each header is the child of the previous one,
+// and the first one is the child of the tip (if any, ie. tip.Height > 0).
+func checkHeadersLinked(tip *block.Header, headers []*block.Header) bool {
+	prev := tip
+	for _, header := range headers {
+		if prev.Height > 0 {
+			prevHash, err := prev.Hash()
+			if err != nil || !bytes.Equal(header.PrevBlockHash, prevHash[:]) {
+				return false
+			}
+		}
+		prev = header
+	}
+
+	return true
+}
+
 func checkHeadersInSequence(headers protocol.MsgHeaders) bool {
 	for i := 0; i < len(headers.Headers); i++ {
 		if i < len(headers.Headers)-1 {
-- 
2.43.0


From 4a74762667df7dd1e04fb3c1225e601189f672a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:43 +0000
Subject: [PATCH 16/49] fix: headers written together are all stored as the
 last one

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index 72b9ff3..f495651 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -73,6 +73,7 @@ func (h *headerInmemory) WriteHeaders(_ context.Context, headers ...block.Header
 	defer h.locker.Unlock()
 
 	for _, header := range headers {
+		header := header
 		hash, err := header.Hash()
 		if err != nil {
 			logrus.Error(err)
-- 
2.43.0


From a3120c9469190f3e599c1332e2b5fc6dc378a624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 17/49] fix: asking for the ancestors of an unknown header
 crashes

---
 internal/infrastructure/storage/db/inmemory/header_inmemory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/header_inmemory.go b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
index f495651..de46d63 100644
--- a/internal/infrastructure/storage/db/inmemory/header_inmemory.go
+++ b/internal/infrastructure/storage/db/inmemory/header_inmemory.go
@@ -166,6 +166,9 @@ func (h *headerInmemory) HasAllAncestors(_ context.Context, hash chainhash.Hash)
 	}
 
 	blockHeader := h.headers[hash]
+	if blockHeader == nil {
+		return false, repository.ErrBlockNotFound
+	}
 
 	for blockHeader.Height > 1 {
 		currentHash, err := chainhash.NewHash(blockHeader.PrevBlockHash)
-- 
2.43.0


From 1397fcbb6755953bc008d87bbb79d767032b30c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:26 +0000
Subject: [PATCH 18/49] fix: computing a filter key may overwrite the caller's
 memory

---
 pkg/repository/filter_repository.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/repository/filter_repository.go b/pkg/repository/filter_repository.go
index e132e10..ae5bc4f 100644
--- a/pkg/repository/filter_repository.go
+++ b/pkg/repository/filter_repository.go
@@ -53,6 +53,8 @@ type FilterKey struct {
 }
 
 func (k FilterKey) String() string {
-	hashedKey := btcutil.Hash160(append(k.BlockHash, byte(k.FilterType)))
+	// copy: append may write in the array behind the caller's slice
+	key := append([]byte{}, k.BlockHash...)
+	hashedKey := btcutil.Hash160(append(key, byte(k.FilterType)))
 	return hex.EncodeToString(hashedKey[:6])
 }
-- 
2.43.0


From 3424a17537fc9e0d1fc921218d501c5832d40a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:28 +0000
Subject: [PATCH 19/49] fix: a known header makes WriteHeaders drop the whole
 batch without error

---
 .../storage/db/pg/header_repository_impl.go            | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index 65a9ccf..ade5097 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -7,8 +7,6 @@ import (
 	"github.com/btcsuite/btcd/blockchain"
 	"github.com/btcsuite/btcd/chaincfg/chainhash"
 	"github.com/btcsuite/btcd/wire"
-	"github.com/lib/pq"
-	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/go-elements/block"
 	"github.com/vulpemventures/neutrino-elements/pkg/repository"
 )
@@ -120,15 +118,9 @@ func (h *headerRepositoryImpl) WriteHeaders(
 			HeaderBytes: headerBytes,
 		}
 
-		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes);`
+		query := `INSERT INTO block_header (hash, height, header_bytes) VALUES (:hash, :height, :header_bytes) ON CONFLICT DO NOTHING;`
 
 		if _, err = tx.NamedExec(query, bh); err != nil {
-			if pqErr := err.(*pq.Error); pqErr != nil {
-				if pqErr.Code == uniqueViolation {
-					log.Warnf("header already exists: %s", hash.String())
-					return nil
-				}
-			}
 			return err
 		}
 	}
-- 
2.43.0


From ccfcc9b38ad40d94d691d93acbdf5dd9ae43931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 20/49] fix: database errors crash or are taken for an empty
 chain

---
 .../storage/db/pg/header_repository_impl.go         | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/header_repository_impl.go b/internal/infrastructure/storage/db/pg/header_repository_impl.go
index ade5097..dde896a 100644
--- a/internal/infrastructure/storage/db/pg/header_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/header_repository_impl.go
@@ -213,7 +213,10 @@ func (h *headerRepositoryImpl) blockLocatorFromHash(blck *block.Header) (blockch
 	height := blck.Height
 	decrement := uint32(1)
 	for height > 0 && len(locator) < wire.MaxBlockLocatorsPerMsg {
-		blockHeader, _ := headersMap[height]
+		blockHeader, ok := headersMap[height]
+		if !ok {
+			return nil, repository.ErrBlockNotFound
+		}
 
 		headerHash, err := blockHeader.Hash()
 		if err != nil {
@@ -264,8 +267,12 @@ func (h *headerRepositoryImpl) getAllBlockHeaders() ([]*block.Header, error) {
 
 	blockHeaders := []*BlockHeader{}
 	err := h.db.Db.Select(&blockHeaders, query)
-	if err == sql.ErrNoRows {
-		return nil, repository.ErrNoBlocksHeaders
+	if err != nil {
+		if err == sql.ErrNoRows {
+			return nil, repository.ErrNoBlocksHeaders
+		}
+
+		return nil, err
 	}
 
 	var headers []*block.Header
-- 
2.43.0


From 36e60efbeaabf759a9045f38e8106297f6b6727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 21/49] fix: storing a filter crashes when the database
 connection fails

---
 internal/infrastructure/storage/db/pg/filter_repository_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/pg/filter_repository_impl.go b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
index d38871f..c9640ad 100644
--- a/internal/infrastructure/storage/db/pg/filter_repository_impl.go
+++ b/internal/infrastructure/storage/db/pg/filter_repository_impl.go
@@ -49,7 +49,7 @@ func (f filterRepositoryImpl) PutFilter(
 		&filter,
 	)
 	if err != nil {
-		if pqErr := err.(*pq.Error); pqErr != nil {
+		if pqErr, ok := err.(*pq.Error); ok && pqErr != nil {
 			if pqErr.Code == uniqueViolation {
 				f, err := f.GetFilter(ctx, entry.Key)
 				if err != nil {
-- 
2.43.0


From 771b7cf10590b211c0e7a40486e0358f10bb0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 22/49] fix: confirming transactions reads the mempool without
 lock and may notify twice

---
 pkg/node/mempool.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 92411d9..69a6b88 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -141,19 +141,17 @@ func (m *MemPool) CheckTxConfirmed(block block.Block) {
 
 func (m *MemPool) checkTxConfirmed(block block.Block) {
 	//TODO: check if this is the best way to do this
-	for _, v := range m.txs {
-		for _, tx := range block.TransactionsData.Transactions {
-			if tx.TxHash().String() == v.tx.TxHash().String() {
-				if err := m.removeTxFromMemPool(v.tx.TxHash().String()); err != nil {
-					log.Errorln("failed to remove tx from memPool")
-				}
-
-				m.notifySubscribers(TxConfirmedEvent{
-					txID: tx.TxHash().String(),
-					tx:   *tx,
-				})
-			}
+	for _, tx := range block.TransactionsData.Transactions {
+		txID := tx.TxHash().String()
+		if err := m.removeTxFromMemPool(txID); err != nil {
+			// not in the memPool, or already confirmed
+			continue
 		}
+
+		m.notifySubscribers(TxConfirmedEvent{
+			txID: txID,
+			tx:   *tx,
+		})
 	}
 }
 
-- 
2.43.0


From c802e11510eb8fd9f3c74941bb60d852c2f1087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 23/49] fix: a transaction received from several peers is
 announced each time

---
 pkg/node/mempool.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 69a6b88..3d6f813 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -166,26 +166,33 @@ func (m *MemPool) removeTxFromMemPool(txID string) error {
 	return errors.New("tx not found")
 }
 
-func (m *MemPool) addTx(txID string, txData txData) {
+// addTx returns false if the transaction was already in the memPool
+func (m *MemPool) addTx(txID string, txData txData) bool {
 	m.txsMutex.Lock()
 	defer m.txsMutex.Unlock()
 
-	if _, ok := m.txs[txID]; !ok {
-		m.txs[txID] = txData
+	if _, ok := m.txs[txID]; ok {
+		return false
 	}
+
+	m.txs[txID] = txData
+	return true
 }
 
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
 	for tx := range m.txChan {
-		m.addTx(
+		added := m.addTx(
 			tx.HashStr(),
 			txData{
 				tx:           tx.Transaction,
 				timeReceived: time.Now(),
 			},
 		)
+		if !added {
+			continue
+		}
 
 		m.notifySubscribers(TxUnConfirmedEvent{
 			txID: tx.HashStr(),
-- 
2.43.0


From fee7e269637a1df6d1dae4d33db2da45d2c6717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 24/49] fix: stopping the mempool panics while transactions or
 notifications are pending

---
 pkg/node/mempool.go | 50 ++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/pkg/node/mempool.go b/pkg/node/mempool.go
index 3d6f813..41f70a0 100644
--- a/pkg/node/mempool.go
+++ b/pkg/node/mempool.go
@@ -31,6 +31,8 @@ type MemPool struct {
 	txSubscribersMutex *sync.RWMutex
 	//txSubscribers is a list of subscribers listening for new transactions
 	txSubscribers []txSubscriber
+	//notifications is used to wait for the pending notifications
+	notifications *sync.WaitGroup
 }
 
 func NewMemPool() MemPool {
@@ -40,6 +42,7 @@ func NewMemPool() MemPool {
 		quitChan:           make(chan struct{}),
 		txsMutex:           new(sync.RWMutex),
 		txSubscribersMutex: new(sync.RWMutex),
+		notifications:      new(sync.WaitGroup),
 	}
 }
 
@@ -92,12 +95,16 @@ func (m *MemPool) Start() {
 }
 
 func (m *MemPool) Stop() {
-	close(m.txChan)
 	close(m.quitChan)
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+
+	// the subscribers' chans are closed once no pending notification uses them
+	m.txSubscribersMutex.Lock()
+	defer m.txSubscribersMutex.Unlock()
+	m.notifications.Wait()
+	for _, v := range m.txSubscribers {
 		close(v.txEvent)
 	}
+	m.txSubscribers = nil
 }
 
 func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
@@ -113,7 +120,10 @@ func (m *MemPool) GetMemPool() map[string]transaction.Transaction {
 }
 
 func (m *MemPool) AddTx(tx protocol.MsgTx) {
-	m.txChan <- tx
+	select {
+	case m.txChan <- tx:
+	case <-m.quitChan:
+	}
 }
 
 func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
@@ -128,13 +138,6 @@ func (m *MemPool) AddSubscriber(id string) <-chan TxEvent {
 	return txEvent
 }
 
-func (m *MemPool) getSubscribersSafe() []txSubscriber {
-	m.txSubscribersMutex.RLock()
-	defer m.txSubscribersMutex.RUnlock()
-
-	return m.txSubscribers
-}
-
 func (m *MemPool) CheckTxConfirmed(block block.Block) {
 	go m.checkTxConfirmed(block)
 }
@@ -182,7 +185,15 @@ func (m *MemPool) addTx(txID string, txData txData) bool {
 func (m *MemPool) listenForNewTxs() {
 	log.Debugln("mem-pool: listening for new transactions")
 
-	for tx := range m.txChan {
+	for {
+		var tx protocol.MsgTx
+		select {
+		case <-m.quitChan:
+			log.Debugln("mem-pool: memPool listener stopped")
+			return
+		case tx = <-m.txChan:
+		}
+
 		added := m.addTx(
 			tx.HashStr(),
 			txData{
@@ -201,16 +212,21 @@ func (m *MemPool) listenForNewTxs() {
 
 		log.Debugf("tx %s added to memPool", tx.HashStr())
 	}
-
-	log.Debugln("mem-pool: memPool listener stopped")
 }
 
 func (m *MemPool) notifySubscribers(txEvent TxEvent) {
-	subs := m.getSubscribersSafe()
-	for _, v := range subs {
+	m.txSubscribersMutex.RLock()
+	defer m.txSubscribersMutex.RUnlock()
+
+	for _, v := range m.txSubscribers {
+		m.notifications.Add(1)
 		go func(subscriber txSubscriber) {
+			defer m.notifications.Done()
 			log.Debugf("notifying subscriber %s of new tx started", subscriber.id)
-			subscriber.txEvent <- txEvent
+			select {
+			case subscriber.txEvent <- txEvent:
+			case <-m.quitChan:
+			}
 			log.Debugf("notifying subscriber %s of new tx done", subscriber.id)
 		}(v)
 	}
-- 
2.43.0


From 6be7de5ee7289b066059ce4298d1579bd8af6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:22 +0000
Subject: [PATCH 25/49] fix: headers received from several peers at once are
 stored for the same height

---
 pkg/node/node.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index e449418..c756852 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -338,7 +338,18 @@ func (n *node) monitorBlockHeaders() {
 		case <-n.quit:
 			return
 		case newHeader := <-n.blockHeadersCh:
-			err := n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
+			// the tip may have changed since the peer's handler checked it
+			extends, err := n.extendsTip(&newHeader)
+			if err != nil {
+				logrus.Error(err)
+				continue
+			}
+			if !extends {
+				log.Debugf("node: block header %v doesn't extend the tip\n", newHeader.Height)
+				continue
+			}
+
+			err = n.blockHeadersDb.WriteHeaders(context.Background(), newHeader)
 			if err != nil {
 				logrus.Error(err)
 				continue
@@ -375,6 +386,21 @@ func (n *node) monitorBlockHeaders() {
 	}
 }
 
+// extendsTip returns true if the header is the child of the stored tip.
+func (n *node) extendsTip(header *block.Header) (bool, error) {
+	tip, err := n.blockHeadersDb.ChainTip(context.Background())
+	if err != nil {
+		if err != repository.ErrNoBlocksHeaders {
+			return false, err
+		}
+		tip = &block.Header{
+			Height: 0,
+		}
+	}
+
+	return header.Height == tip.Height+1 && checkHeadersLinked(tip, []*block.Header{header}), nil
+}
+
 // monitorCFilters monitors new cfilters comming from peers.
 func (n *node) monitorCFilters() {
 	for {
-- 
2.43.0


From 89df965db7f7c5ea539d7dfacba886b358cc5d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:13 +0000
Subject: [PATCH 26/49] fix: a lost peer is still monitored and disturbs the
 one that reconnects

---
 pkg/node/handle_ping.go | 37 +++++++++++++++++++++----------------
 pkg/node/node.go        | 18 +++++++++---------
 2 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index c9b378c..d7300c8 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -11,8 +11,8 @@ import (
 )
 
 type peerPing struct {
-	nonce  uint64
-	peerID peer.PeerID
+	nonce uint64
+	peer  peer.Peer
 }
 
 func (n *node) addPeer(peer peer.Peer) error {
@@ -37,30 +37,30 @@ func (n *node) addPeer(peer peer.Peer) error {
 }
 
 // peerPongCh returns the chan receiving the pongs of a connected peer, nil if it is gone.
-func (n *node) peerPongCh(peerID peer.PeerID) chan uint64 {
+func (n *node) peerPongCh(p peer.Peer) chan uint64 {
 	n.peersMtx.RLock()
 	defer n.peersMtx.RUnlock()
 
-	if n.Peers[peerID] == nil {
+	if n.Peers[p.ID()] != p {
 		return nil
 	}
 
-	return n.peersPongCh[peerID]
+	return n.peersPongCh[p.ID()]
 }
 
 func (n *node) monitorPeers() {
-	peerPings := make(map[uint64]peer.PeerID)
+	peerPings := make(map[uint64]peer.Peer)
 
 	for {
 		select {
 		case <-n.quit:
 			return
 		case nonce := <-n.pongsCh:
-			peerID := peerPings[nonce]
-			if peerID == "" {
+			p := peerPings[nonce]
+			if p == nil {
 				break
 			}
-			pongCh := n.peerPongCh(peerID)
+			pongCh := n.peerPongCh(p)
 			if pongCh == nil {
 				break
 			}
@@ -69,13 +69,13 @@ func (n *node) monitorPeers() {
 			delete(peerPings, nonce)
 
 		case pp := <-n.pingsCh:
-			peerPings[pp.nonce] = pp.peerID
+			peerPings[pp.nonce] = pp.peer
 
-		case peerID := <-n.DisconCh:
-			n.disconnectPeer(peerID)
+		case p := <-n.DisconCh:
+			n.disconnectPeer(p)
 
 			for k, v := range peerPings {
-				if v == peerID {
+				if v == p {
 					delete(peerPings, k)
 					break
 				}
@@ -95,6 +95,11 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			logrus.Warn("monitorPeer: quit")
 			return
 		case <-ticker.C:
+			// the peer is gone, another one may be connected with its ID
+			if n.getPeer(peer.ID()) != peer {
+				return
+			}
+
 			ping, nonce, err := protocol.NewPingMsg(n.Network)
 			if err != nil {
 				logrus.Fatalf("monitorPeer, NewPingMsg: %v", err)
@@ -108,8 +113,8 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			// register the nonce before the pong can arrive
 			select {
 			case n.pingsCh <- peerPing{
-				nonce:  nonce,
-				peerID: peer.ID(),
+				nonce: nonce,
+				peer:  peer,
 			}:
 			case <-n.quit:
 				return
@@ -125,7 +130,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 			t := time.NewTimer(pingTimeoutSec * time.Second)
 
 			select {
-			case pn := <-n.peerPongCh(peer.ID()):
+			case pn := <-n.peerPongCh(peer):
 				if pn != nonce {
 					logrus.Errorf("nonce doesn't match for %s: want %d, got %d", peer, nonce, pn)
 					n.notifyDisconnected(peer)
diff --git a/pkg/node/node.go b/pkg/node/node.go
index c756852..80a2db9 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -40,7 +40,7 @@ type node struct {
 	// peersMtx protects Peers and peersPongCh
 	peersMtx sync.RWMutex
 
-	DisconCh  chan peer.PeerID
+	DisconCh  chan peer.Peer
 	UserAgent string
 
 	compactFiltersCh chan protocol.MsgCFilter
@@ -78,7 +78,7 @@ func New(config NodeConfig) (NodeService, error) {
 		pingsCh:     make(chan peerPing),
 		pongsCh:     make(chan uint64),
 		peersPongCh: make(map[peer.PeerID]chan uint64),
-		DisconCh:    make(chan peer.PeerID),
+		DisconCh:    make(chan peer.Peer),
 		UserAgent:   config.UserAgent,
 
 		compactFiltersCh: make(chan protocol.MsgCFilter),
@@ -213,7 +213,7 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 // notifyDisconnected tells the peers' monitor that a peer is gone.
 func (n *node) notifyDisconnected(p peer.Peer) {
 	select {
-	case n.DisconCh <- p.ID():
+	case n.DisconCh <- p:
 	case <-n.quit:
 	}
 }
@@ -316,19 +316,19 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 
 // on disconnect, remove the peer from the node.
 // and close the connection.
-func (n *node) disconnectPeer(peerID peer.PeerID) {
-	logrus.Debugf("disconnecting peer %s", peerID)
+func (n *node) disconnectPeer(p peer.Peer) {
+	logrus.Debugf("disconnecting peer %s", p.ID())
 
 	n.peersMtx.Lock()
 	defer n.peersMtx.Unlock()
 
-	peer := n.Peers[peerID]
-	if peer == nil {
+	// another peer may be connected with the same ID
+	if n.Peers[p.ID()] != p {
 		return
 	}
 
-	peer.Connection().Close()
-	delete(n.Peers, peerID)
+	p.Connection().Close()
+	delete(n.Peers, p.ID())
 }
 
 // monitorBlockHeaders monitors new block headers coming from peers.
-- 
2.43.0


From f2da0a1d687564875fb4763e3f00944b4db86b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:08 +0000
Subject: [PATCH 27/49] fix: the scanner blocks on stop, spins, and misses or
 delays requests

---
 pkg/scanner/requestqueue.go | 36 +++++++++++--------
 pkg/scanner/scanner.go      | 71 +++++++++++++++++++++++--------------
 2 files changed, 66 insertions(+), 41 deletions(-)

diff --git a/pkg/scanner/requestqueue.go b/pkg/scanner/requestqueue.go
index 7e014c0..c5b4922 100644
--- a/pkg/scanner/requestqueue.go
+++ b/pkg/scanner/requestqueue.go
@@ -7,7 +7,8 @@ import (
 type scanRequestQueue struct {
 	requests []*ScanRequest
 	locker   sync.Locker
-	cond     sync.Cond
+	// added is signalled when a new request is added to the queue
+	added chan struct{}
 }
 
 func newScanRequestQueue() *scanRequestQueue {
@@ -15,7 +16,7 @@ func newScanRequestQueue() *scanRequestQueue {
 	return &scanRequestQueue{
 		requests: make([]*ScanRequest, 0),
 		locker:   new(sync.Mutex),
-		cond:     sync.Cond{L: &sync.Mutex{}},
+		added:    make(chan struct{}, 1),
 	}
 }
 
@@ -37,28 +38,35 @@ func (queue *scanRequestQueue) dequeueAtHeight(height uint32) []*ScanRequest {
 	return selected
 }
 
+// enqueue adds a new request and wakes up the scanner.
 func (queue *scanRequestQueue) enqueue(req *ScanRequest) {
-	queue.locker.Lock()
-	defer queue.locker.Unlock()
-	defer queue.cond.Signal()
+	queue.requeue(req)
 
-	queue.requests = append(queue.requests, req)
+	select {
+	case queue.added <- struct{}{}:
+	default: // already signalled
+	}
 }
 
-func (queue *scanRequestQueue) peek() *ScanRequest {
+// requeue puts requests back in the queue, until the next scan.
+func (queue *scanRequestQueue) requeue(reqs ...*ScanRequest) {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	if len(queue.requests) == 0 {
-		return nil
-	}
-
-	return queue.requests[0]
+	queue.requests = append(queue.requests, reqs...)
 }
 
-func (queue *scanRequestQueue) isEmpty() bool {
+// peek returns the request with the lowest start height, nil if the queue is empty.
+func (queue *scanRequestQueue) peek() *ScanRequest {
 	queue.locker.Lock()
 	defer queue.locker.Unlock()
 
-	return len(queue.requests) == 0
+	var next *ScanRequest
+	for _, req := range queue.requests {
+		if next == nil || req.StartHeight < next.StartHeight {
+			next = req
+		}
+	}
+
+	return next
 }
diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d0a321c..833c1ac 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -3,6 +3,9 @@ package scanner
 import (
 	"context"
 	"fmt"
+	"sync"
+	"time"
+
 	"github.com/google/uuid"
 
 	"github.com/vulpemventures/go-elements/descriptor"
@@ -22,6 +25,9 @@ const (
 	SpentUtxo
 
 	numOsScripts = 100
+
+	// scanInterval is the time between two scans of the new blocks
+	scanInterval = time.Second
 )
 
 type EventType int
@@ -56,6 +62,8 @@ type Service interface {
 }
 
 type scannerService struct {
+	// startLocker protects started and quitCh
+	startLocker   sync.Mutex
 	started       bool
 	requestsQueue *scanRequestQueue
 	filterDB      repository.FilterRepository
@@ -78,7 +86,6 @@ func New(
 		filterDB:      filterDB,
 		headerDB:      headerDB,
 		blockService:  blockSvc,
-		quitCh:        make(chan struct{}),
 		genesisHash:   genesisHash,
 	}
 }
@@ -86,14 +93,17 @@ func New(
 func (s *scannerService) Start() (<-chan Report, error) {
 	log.Debugln("scanner: starting scanner ...")
 
+	s.startLocker.Lock()
+	defer s.startLocker.Unlock()
+
 	if s.started {
 		return nil, fmt.Errorf("scanner already started")
 	}
 
-	s.quitCh = make(chan struct{}, 1)
+	s.quitCh = make(chan struct{})
 	resultCh := make(chan Report)
 	// start the requests manager
-	go s.requestsManager(resultCh)
+	go s.requestsManager(resultCh, s.quitCh)
 
 	s.started = true
 	return resultCh, nil
@@ -102,7 +112,14 @@ func (s *scannerService) Start() (<-chan Report, error) {
 func (s *scannerService) Stop() {
 	log.Debugln("scanner: stopping scanner ...")
 
-	s.quitCh <- struct{}{}
+	s.startLocker.Lock()
+	defer s.startLocker.Unlock()
+
+	if !s.started {
+		return
+	}
+
+	close(s.quitCh)
 	s.started = false
 	//s.requestsQueue = newScanRequestQueue() TODO: commented cause data race
 }
@@ -167,47 +184,43 @@ func (s *scannerService) WatchDescriptorWallet(
 }
 
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
-func (s *scannerService) requestsManager(ch chan<- Report) {
-	defer close(s.quitCh)
-
+func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}) {
 	for {
-		s.requestsQueue.cond.L.Lock()
-		for s.requestsQueue.isEmpty() {
+		// get the next request without removing it from the queue
+		nextRequest := s.requestsQueue.peek()
+		if nextRequest == nil {
 			logrus.Debug("scanner: scanner queue is empty, waiting for new requests")
-			s.requestsQueue.cond.Wait() // wait for new requests
-
-			// check if we should quit the routine
 			select {
-			case <-s.quitCh:
-				s.requestsQueue.cond.L.Unlock()
+			case <-s.requestsQueue.added:
+				continue
+			case <-quitCh:
 				return
-			default:
 			}
 		}
-		s.requestsQueue.cond.L.Unlock()
 
-		// get the next request without removing it from the queue
-		nextRequest := s.requestsQueue.peek()
-		err := s.requestWorker(nextRequest.StartHeight, ch)
+		err := s.requestWorker(nextRequest.StartHeight, ch, quitCh)
 		if err != nil {
 			logrus.Errorf("error while scanning: %v", err)
 		}
 
-		// check if we should quit the routine
+		// wait for new blocks or new requests
 		select {
-		case <-s.quitCh:
+		case <-s.requestsQueue.added:
+		case <-time.After(scanInterval):
+		case <-quitCh:
 			return
-		default:
-			continue
 		}
-
 	}
 }
 
 // will check if any blocks has the requested item
 // if yes, will extract the transaction that match the item
 // TODO handle properly errors (enqueue the unresolved requests ??)
-func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Report) error {
+func (s *scannerService) requestWorker(
+	startHeight uint32,
+	reportsChan chan<- Report,
+	quitCh <-chan struct{},
+) error {
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
@@ -250,7 +263,11 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 
 			for _, report := range reports {
 				// send the report to the output channel
-				reportsChan <- report
+				select {
+				case reportsChan <- report:
+				case <-quitCh:
+					return nil
+				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
 				if report.Request.IsPersistent {
@@ -280,7 +297,7 @@ func (s *scannerService) requestWorker(startHeight uint32, reportsChan chan<- Re
 
 	// enqueue the remaining requests
 	for _, req := range nextBatch {
-		s.requestsQueue.enqueue(req)
+		s.requestsQueue.requeue(req)
 	}
 
 	return nil
-- 
2.43.0


From 45d0f62316918ca087eedd0b5c2d7e078b078aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 28/49] fix: an error while scanning loses the pending watch
 requests

---
 pkg/scanner/scanner.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 833c1ac..be61cc1 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -224,6 +224,11 @@ func (s *scannerService) requestWorker(
 	nextBatch := make([]*ScanRequest, 0)
 	nextHeight := startHeight
 
+	// the unresolved requests wait for the next scan, also after an error
+	defer func() {
+		s.requestsQueue.requeue(nextBatch...)
+	}()
+
 	chainTip, err := s.headerDB.ChainTip(context.Background())
 	if err != nil {
 		return err
@@ -295,11 +300,6 @@ func (s *scannerService) requestWorker(
 		}
 	}
 
-	// enqueue the remaining requests
-	for _, req := range nextBatch {
-		s.requestsQueue.requeue(req)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 03eed7e56ec5e5406cd756fe09333590da5a7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:29 +0000
Subject: [PATCH 29/49] fix: a persistent watch is duplicated when several
 transactions of a block match

---
 pkg/scanner/scanner.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index be61cc1..2af1750 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -266,16 +266,29 @@ func (s *scannerService) requestWorker(
 				return err
 			}
 
-			for _, report := range reports {
+			// if some requests remain, put them back in the next batch
+			// this will remove the resolved requests from the batch
+			nextBatch = remainReqs
+
+			for i, report := range reports {
+				// the reports are grouped by request
+				isLast := i == len(reports)-1 || reports[i+1].Request != report.Request
+
 				// send the report to the output channel
 				select {
 				case reportsChan <- report:
 				case <-quitCh:
+					// the requests that are not fully reported are not resolved
+					for j := i; j < len(reports); j++ {
+						if j == len(reports)-1 || reports[j+1].Request != reports[j].Request {
+							nextBatch = append(nextBatch, reports[j].Request)
+						}
+					}
 					return nil
 				}
 
 				// if the request is persistent, the scanner will keep watching the item at the next block height
-				if report.Request.IsPersistent {
+				if report.Request.IsPersistent && isLast {
 					s.Watch(
 						WithRequestID(report.Request.ClientID),
 						WithStartBlock(report.BlockHeight+1),
@@ -284,10 +297,6 @@ func (s *scannerService) requestWorker(
 					)
 				}
 			}
-
-			// if some requests remain, put them back in the next batch
-			// this will remove the resolved requests from the batch
-			nextBatch = remainReqs
 		}
 
 		// increment the height to scan
-- 
2.43.0


From 8416501eacab85afd3c6d1d59b29dfc0c3d1f327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:15 +0000
Subject: [PATCH 30/49] fix: the subscribers map is read and written
 concurrently

---
 .../core/application/notification_service.go   | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 025786b..15ee67d 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"runtime/debug"
+	"sync"
 )
 
 type NotificationService interface {
@@ -20,6 +21,8 @@ type NotificationService interface {
 type notificationService struct {
 	// subscribers is a map of subscriber IDs and Subscribers with wallet descriptors
 	subscribers map[SubscriberID]Subscriber
+	// subscribersLock is a mutex for subscribers map
+	subscribersLock sync.RWMutex
 	// scannerSvc is the scanner service used to watch on-chain events
 	scannerSvc scanner.Service
 
@@ -118,7 +121,9 @@ func (n *notificationService) handleSubscribers() {
 	for {
 		select {
 		case sub := <-n.registerSubs:
+			n.subscribersLock.Lock()
 			n.subscribers[sub.ID] = sub
+			n.subscribersLock.Unlock()
 
 			if err := n.scannerSvc.WatchDescriptorWallet(
 				uuid.UUID(sub.ID),
@@ -134,7 +139,9 @@ func (n *notificationService) handleSubscribers() {
 				return
 			}
 		case sub := <-n.unregisterSubs:
+			n.subscribersLock.Lock()
 			delete(n.subscribers, sub.ID)
+			n.subscribersLock.Unlock()
 		case <-n.quitHandleSubscribers:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
@@ -156,9 +163,16 @@ func (n *notificationService) Subscribe(
 	return nil
 }
 
+func (n *notificationService) isSubscribed(id SubscriberID) bool {
+	n.subscribersLock.RLock()
+	defer n.subscribersLock.RUnlock()
+
+	_, ok := n.subscribers[id]
+	return ok
+}
+
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	_, ok := n.subscribers[subscriber.ID]
-	if !ok {
+	if !n.isSubscribed(subscriber.ID) {
 		return errors.New("subscriber not found")
 	}
 
-- 
2.43.0


From 23d93149acd4a5cf11b4bfc56cb22cd8fd6299bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 31/49] fix: a bad descriptor ends all registrations, and
 stopping the notifications may block

---
 .../core/application/notification_service.go  | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 15ee67d..273b1de 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -81,8 +81,8 @@ func (n *notificationService) ErrorReport() chan SubscriberErrorReport {
 
 func (n *notificationService) Stop() {
 	log.Debug("sss")
-	n.quitHandleOnChainEvents <- struct{}{}
-	n.quitHandleSubscribers <- struct{}{}
+	close(n.quitHandleOnChainEvents)
+	close(n.quitHandleSubscribers)
 	log.Debug("sssdsds")
 }
 
@@ -96,12 +96,16 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	for {
 		select {
 		case report := <-scannerReport:
-			n.subsEventReport <- SubscriberEventReport{
+			select {
+			case n.subsEventReport <- SubscriberEventReport{
 				SubscriberID: SubscriberID(report.Request.ClientID),
 				EventType:    report.Request.Item.EventType(),
 				BlockHeight:  int(report.BlockHeight),
 				BlockHash:    report.BlockHash,
 				Transaction:  report.Transaction,
+			}:
+			case <-n.quitHandleOnChainEvents:
+				return
 			}
 		case <-n.quitHandleOnChainEvents:
 			log.Debug("notificationService -> handleOnChainEvents stopped")
@@ -131,12 +135,14 @@ func (n *notificationService) handleSubscribers() {
 				sub.Events,
 				sub.BlockHeight,
 			); err != nil {
-				n.subsErrorReport <- SubscriberErrorReport{
+				select {
+				case n.subsErrorReport <- SubscriberErrorReport{
 					SubscriberID: sub.ID,
 					ErrorMsg:     err,
+				}:
+				case <-n.quitHandleSubscribers:
+					return
 				}
-
-				return
 			}
 		case sub := <-n.unregisterSubs:
 			n.subscribersLock.Lock()
@@ -157,7 +163,10 @@ func (n *notificationService) Subscribe(
 	}
 
 	go func() {
-		n.registerSubs <- subscriber
+		select {
+		case n.registerSubs <- subscriber:
+		case <-n.quitHandleSubscribers:
+		}
 	}()
 
 	return nil
@@ -177,7 +186,10 @@ func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
 	}
 
 	go func() {
-		n.unregisterSubs <- subscriber
+		select {
+		case n.unregisterSubs <- subscriber:
+		case <-n.quitHandleSubscribers:
+		}
 	}()
 
 	return nil
-- 
2.43.0


From a42db1606702d8743b17f22f620d7478b7063c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 32/49] fix: events are sent to subscribers that unsubscribed

---
 .../core/application/notification_service.go  | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/internal/core/application/notification_service.go b/internal/core/application/notification_service.go
index 273b1de..be9e37a 100644
--- a/internal/core/application/notification_service.go
+++ b/internal/core/application/notification_service.go
@@ -28,8 +28,6 @@ type notificationService struct {
 
 	// registerSubs is a channel used to register subscribers
 	registerSubs chan Subscriber
-	// unregisterSubs is a channel used to unregister subscribers
-	unregisterSubs chan Subscriber
 
 	// subsEventReport is a channel used to report events to subscribers
 	subsEventReport chan SubscriberEventReport
@@ -49,7 +47,6 @@ func NewNotificationService(
 		subscribers:             make(map[SubscriberID]Subscriber),
 		scannerSvc:              scannerSvc,
 		registerSubs:            make(chan Subscriber),
-		unregisterSubs:          make(chan Subscriber),
 		subsEventReport:         make(chan SubscriberEventReport),
 		subsErrorReport:         make(chan SubscriberErrorReport),
 		quitHandleOnChainEvents: make(chan struct{}),
@@ -96,6 +93,11 @@ func (n *notificationService) handleOnChainEvents(scannerReport <-chan scanner.R
 	for {
 		select {
 		case report := <-scannerReport:
+			// the scanner keeps watching for the subscribers that left
+			if !n.isSubscribed(SubscriberID(report.Request.ClientID)) {
+				continue
+			}
+
 			select {
 			case n.subsEventReport <- SubscriberEventReport{
 				SubscriberID: SubscriberID(report.Request.ClientID),
@@ -125,10 +127,6 @@ func (n *notificationService) handleSubscribers() {
 	for {
 		select {
 		case sub := <-n.registerSubs:
-			n.subscribersLock.Lock()
-			n.subscribers[sub.ID] = sub
-			n.subscribersLock.Unlock()
-
 			if err := n.scannerSvc.WatchDescriptorWallet(
 				uuid.UUID(sub.ID),
 				sub.WalletDescriptor,
@@ -144,10 +142,6 @@ func (n *notificationService) handleSubscribers() {
 					return
 				}
 			}
-		case sub := <-n.unregisterSubs:
-			n.subscribersLock.Lock()
-			delete(n.subscribers, sub.ID)
-			n.subscribersLock.Unlock()
 		case <-n.quitHandleSubscribers:
 			log.Debug("notificationService -> handleSubscribers stopped")
 			return
@@ -162,6 +156,10 @@ func (n *notificationService) Subscribe(
 		return err
 	}
 
+	n.subscribersLock.Lock()
+	n.subscribers[subscriber.ID] = subscriber
+	n.subscribersLock.Unlock()
+
 	go func() {
 		select {
 		case n.registerSubs <- subscriber:
@@ -181,16 +179,14 @@ func (n *notificationService) isSubscribed(id SubscriberID) bool {
 }
 
 func (n *notificationService) UnSubscribe(subscriber Subscriber) error {
-	if !n.isSubscribed(subscriber.ID) {
+	n.subscribersLock.Lock()
+	defer n.subscribersLock.Unlock()
+
+	_, ok := n.subscribers[subscriber.ID]
+	if !ok {
 		return errors.New("subscriber not found")
 	}
-
-	go func() {
-		select {
-		case n.unregisterSubs <- subscriber:
-		case <-n.quitHandleSubscribers:
-		}
-	}()
+	delete(n.subscribers, subscriber.ID)
 
 	return nil
 }
-- 
2.43.0


From 164665b3aabff0dc35f1a3be4f853035818f585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 33/49] fix: an event for a client that left ends the
 notifications of all clients

---
 .../interface/web-socket/handler/notification_handler.go  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index fd4b6e8..17aa699 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -111,6 +111,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 		select {
 		case eventReport := <-d.notificationSvc.EventReport():
 			subscriber := d.getSubscriberSafe(SubscriberID(eventReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("event for a subscriber that left: %v", eventReport.SubscriberID)
+				continue
+			}
 
 			eventType, err := neutrinodtypes.FromScannerEventTypeToNeutrinodType(eventReport.EventType)
 			if err != nil {
@@ -159,6 +163,10 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			)
 
 			subscriber := d.getSubscriberSafe(SubscriberID(errReport.SubscriberID))
+			if subscriber == nil {
+				log.Debugf("error for a subscriber that left: %v", errReport.SubscriberID)
+				continue
+			}
 
 			response := neutrinodtypes.MessageErrorResponse{
 				ErrorMessage: errReport.ErrorMsg.Error(),
-- 
2.43.0


From 47a38f7975984a06c1642b6211c94a16b984b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 34/49] fix: failed registrations are answered with an error
 and a success

---
 internal/interface/web-socket/handler/http_handler.go | 2 ++
 internal/interface/web-socket/handler/ws_handler.go   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 8894a8f..7b457a9 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -41,6 +41,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 		log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -58,6 +59,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 				ErrorMessage: "un-successful un-registration",
 			}
 			sendResponseToSubscriberHttp(w, resp)
+			return
 		}
 
 		log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 6906d2d..b32c867 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -113,8 +113,8 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+				goto msgloop
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
@@ -134,8 +134,8 @@ msgloop:
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
-					goto msgloop
 				}
+				goto msgloop
 			}
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
-- 
2.43.0


From 67ff7f8ba5bef21a91caf1b35e49bd01ca31a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:12 +0000
Subject: [PATCH 35/49] fix: replies and events are written concurrently to a
 websocket

---
 .../web-socket/handler/notification_handler.go    |  4 ++--
 internal/interface/web-socket/handler/types.go    |  4 ++++
 .../interface/web-socket/handler/ws_handler.go    | 15 +++++++++------
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 17aa699..8d961da 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -130,7 +130,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
@@ -175,7 +175,7 @@ func (d *descriptorWalletNotifierHandler) handleOnChainNotifications() {
 			switch subscriber.Type() {
 			case wsType:
 				wsSubscriber := subscriber.(*WsSubscriber)
-				if err := sendResponseToSubscriberWs(*wsSubscriber, response); err != nil {
+				if err := sendResponseToSubscriberWs(wsSubscriber, response); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
 					continue
 				}
diff --git a/internal/interface/web-socket/handler/types.go b/internal/interface/web-socket/handler/types.go
index c5db394..9b302aa 100644
--- a/internal/interface/web-socket/handler/types.go
+++ b/internal/interface/web-socket/handler/types.go
@@ -1,6 +1,8 @@
 package handler
 
 import (
+	"sync"
+
 	"github.com/google/uuid"
 	"github.com/gorilla/websocket"
 )
@@ -17,6 +19,8 @@ type Subscriber interface {
 type WsSubscriber struct {
 	ID           SubscriberID
 	WsConnection *websocket.Conn
+	// writeLock: the connection supports one concurrent writer
+	writeLock sync.Mutex
 }
 
 func (w *WsSubscriber) Type() SubscriberType {
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index b32c867..3eb8e6e 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -86,7 +86,7 @@ msgloop:
 			if err != nil {
 				log.Errorf("unsucesfull conversion FromNeutrinodTypeToScannerEventType %v", err)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: "irregular event type",
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -109,7 +109,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -118,7 +118,7 @@ msgloop:
 			}
 			log.Infof("sucesfull registration, subscriber: %v", subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -130,7 +130,7 @@ msgloop:
 			}); err != nil {
 				log.Errorf("unsucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-				if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.MessageErrorResponse{
+				if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.MessageErrorResponse{
 					ErrorMessage: err.Error(),
 				}); err != nil {
 					log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -140,7 +140,7 @@ msgloop:
 
 			log.Infof("sucesfull un-registration: %v, subscriber: %v", err, subsID)
 
-			if err := sendResponseToSubscriberWs(*subscriber, neutrinodtypes.GeneralMessageResponse{
+			if err := sendResponseToSubscriberWs(subscriber, neutrinodtypes.GeneralMessageResponse{
 				Message: "successfully un-registered",
 			}); err != nil {
 				log.Errorf("failed sending response to subscriber: %v", err.Error())
@@ -156,7 +156,7 @@ func sendResponseToSubscriberWs[
 	V neutrinodtypes.MessageErrorResponse |
 		neutrinodtypes.OnChainEventResponse |
 		neutrinodtypes.GeneralMessageResponse](
-	subscriber WsSubscriber,
+	subscriber *WsSubscriber,
 	resp V,
 ) error {
 	defer func() {
@@ -171,6 +171,9 @@ func sendResponseToSubscriberWs[
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
 
+	subscriber.writeLock.Lock()
+	defer subscriber.writeLock.Unlock()
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
-- 
2.43.0


From 960e790a68c22cebfa73c3291ca3a2ab801a6c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 36/49] fix: a websocket client that sends no JSON stays
 subscribed, stopping blocks its handlers

---
 .../web-socket/handler/http_handler.go        |  7 ++++++-
 .../handler/notification_handler.go           |  4 ++--
 .../web-socket/handler/ws_handler.go          | 19 ++++++++++++-------
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 7b457a9..147802f 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -22,9 +22,14 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 	}
 
 	subsID := uuid.New()
-	d.registerSubs <- &HttpSubscriber{
+	select {
+	case d.registerSubs <- &HttpSubscriber{
 		ID:          SubscriberID(subsID),
 		EndpointUrl: subscriptionReq.EndpointUrl,
+	}:
+	case <-d.quitHandleSubscribers:
+		http.Error(w, "shutting down", http.StatusServiceUnavailable)
+		return
 	}
 
 	switch subscriptionReq.ActionType {
diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index 8d961da..c977e24 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -70,8 +70,8 @@ func (d *descriptorWalletNotifierHandler) Start() {
 }
 
 func (d *descriptorWalletNotifierHandler) Stop() {
-	d.quitHandleSubscribers <- struct{}{}
-	d.quitHandleOnChainNotifications <- struct{}{}
+	close(d.quitHandleSubscribers)
+	close(d.quitHandleOnChainNotifications)
 	time.Sleep(time.Second) // wait for DescriptorWalletNotifierHandler to stop
 
 	d.notificationSvc.Stop()
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index 3eb8e6e..d83a367 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -39,10 +39,21 @@ func (d *descriptorWalletNotifierHandler) handleRequest(conn *websocket.Conn) {
 	conn.SetReadLimit(maxMessageSize)
 
 	subsID := uuid.New()
-	d.registerSubs <- &WsSubscriber{
+	subscriber := &WsSubscriber{
 		ID:           SubscriberID(subsID),
 		WsConnection: conn,
 	}
+	select {
+	case d.registerSubs <- subscriber:
+	case <-d.quitHandleSubscribers:
+		return
+	}
+	defer func() {
+		select {
+		case d.unregisterSubs <- subscriber:
+		case <-d.quitHandleSubscribers:
+		}
+	}()
 
 	log.Debugf("new ws subscriber connected: %v", subsID)
 
@@ -62,10 +73,6 @@ msgloop:
 				log.Warnf("Error reading message: %v\n", err)
 			}
 
-			d.unregisterSubs <- &WsSubscriber{
-				ID: SubscriberID(subsID),
-			}
-
 			return
 		}
 
@@ -78,8 +85,6 @@ msgloop:
 
 		log.Debugf("new message from subscriber: %v", subsID)
 
-		subscriber := d.getSubscriberSafe(SubscriberID(subsID)).(*WsSubscriber)
-
 		events := make([]scanner.EventType, 0, len(wsMsg.EventTypes))
 		for _, v := range wsMsg.EventTypes {
 			eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
-- 
2.43.0


From 2d7fea99e74843d7f5f67a2d92d1d8008e27f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:53 +0000
Subject: [PATCH 37/49] fix: a websocket client that does not read blocks the
 notifications of all clients

---
 .../interface/web-socket/handler/notification_handler.go    | 3 +++
 internal/interface/web-socket/handler/ws_handler.go         | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/internal/interface/web-socket/handler/notification_handler.go b/internal/interface/web-socket/handler/notification_handler.go
index c977e24..e47c62b 100644
--- a/internal/interface/web-socket/handler/notification_handler.go
+++ b/internal/interface/web-socket/handler/notification_handler.go
@@ -16,6 +16,9 @@ import (
 const (
 	maxMessageSize = 512
 
+	// writeTimeout is the time given to a client to receive a message
+	writeTimeout = 10 * time.Second
+
 	wsType   SubscriberType = "ws"
 	httpType SubscriberType = "http"
 )
diff --git a/internal/interface/web-socket/handler/ws_handler.go b/internal/interface/web-socket/handler/ws_handler.go
index d83a367..7109fd9 100644
--- a/internal/interface/web-socket/handler/ws_handler.go
+++ b/internal/interface/web-socket/handler/ws_handler.go
@@ -12,6 +12,7 @@ import (
 	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
 	"runtime/debug"
+	"time"
 )
 
 func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestWs(
@@ -179,6 +180,11 @@ func sendResponseToSubscriberWs[
 	subscriber.writeLock.Lock()
 	defer subscriber.writeLock.Unlock()
 
+	// a client that doesn't read must not block the others' notifications
+	if err = subscriber.WsConnection.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
+		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
+	}
+
 	if err = subscriber.WsConnection.WriteMessage(websocket.TextMessage, r); err != nil {
 		return fmt.Errorf("sendResponseToSubscriberWs -> %v", err)
 	}
-- 
2.43.0


From 5acf3ec23b889bd0d2925ad70573c37da817b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 38/49] fix: webhooks cannot be registered with the documented
 event types

---
 .../interface/web-socket/handler/http_handler.go   | 14 +++++++++++++-
 pkg/neutrinod-types/types_http.go                  | 12 +++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/internal/interface/web-socket/handler/http_handler.go b/internal/interface/web-socket/handler/http_handler.go
index 147802f..598ef35 100644
--- a/internal/interface/web-socket/handler/http_handler.go
+++ b/internal/interface/web-socket/handler/http_handler.go
@@ -6,6 +6,7 @@ import (
 	log "github.com/sirupsen/logrus"
 	"github.com/vulpemventures/neutrino-elements/internal/core/application"
 	neutrinodtypes "github.com/vulpemventures/neutrino-elements/pkg/neutrinod-types"
+	"github.com/vulpemventures/neutrino-elements/pkg/scanner"
 	"net/http"
 )
 
@@ -21,6 +22,17 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 		return
 	}
 
+	events := make([]scanner.EventType, 0, len(subscriptionReq.EventTypes))
+	for _, v := range subscriptionReq.EventTypes {
+		eventType, err := neutrinodtypes.FromNeutrinodTypeToScannerEventType(v)
+		if err != nil {
+			http.Error(w, "irregular event type", http.StatusBadRequest)
+			return
+		}
+
+		events = append(events, eventType)
+	}
+
 	subsID := uuid.New()
 	select {
 	case d.registerSubs <- &HttpSubscriber{
@@ -37,7 +49,7 @@ func (d *descriptorWalletNotifierHandler) HandleSubscriptionRequestHttp(
 		if err := d.notificationSvc.Subscribe(application.Subscriber{
 			ID:               application.SubscriberID(subsID),
 			BlockHeight:      subscriptionReq.StartBlockHeight,
-			Events:           subscriptionReq.EventTypes,
+			Events:           events,
 			WalletDescriptor: subscriptionReq.DescriptorWallet,
 		}); err != nil {
 			log.Errorf("unsucesfull registration: %v, subscriber: %v", err, subsID)
diff --git a/pkg/neutrinod-types/types_http.go b/pkg/neutrinod-types/types_http.go
index 056de09..751f70a 100644
--- a/pkg/neutrinod-types/types_http.go
+++ b/pkg/neutrinod-types/types_http.go
@@ -1,11 +1,9 @@
 package neutrinodtypes
 
-import "github.com/vulpemventures/neutrino-elements/pkg/scanner"
-
 type SubscriptionRequestHttp struct {
-	ActionType       ActionType          `json:"actionType"`
-	EventTypes       []scanner.EventType `json:"eventTypes"`
-	DescriptorWallet string              `json:"descriptorWallet"`
-	StartBlockHeight int                 `json:"startBlockHeight"`
-	EndpointUrl      string              `json:"endpointUrl"`
+	ActionType       ActionType  `json:"actionType"`
+	EventTypes       []EventType `json:"eventTypes"`
+	DescriptorWallet string      `json:"descriptorWallet"`
+	StartBlockHeight int         `json:"startBlockHeight"`
+	EndpointUrl      string      `json:"endpointUrl"`
 }
-- 
2.43.0


From e11d00668f01432104071f5eb7350643766d0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:36 +0000
Subject: [PATCH 39/49] fix: registering an unsupported descriptor crashes

---
 pkg/scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 2af1750..b0f3091 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -143,6 +143,11 @@ func (s *scannerService) WatchDescriptorWallet(
 				return err
 			}
 
+			// some descriptors are recognised but not supported
+			if wallet == nil {
+				return fmt.Errorf("descriptor not supported: %s", desc)
+			}
+
 			var scripts []descriptor.ScriptResponse
 
 			if wallet.IsRange() {
-- 
2.43.0


From 3d41f6c3ae0f0cdd4af7380d2d5f60a2f1a46dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 40/49] fix: registering a malformed descriptor crashes

---
 pkg/scanner/scanner.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index b0f3091..176a026 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -138,7 +138,7 @@ func (s *scannerService) WatchDescriptorWallet(
 	for _, v := range eventType {
 		switch v {
 		case UnspentUtxo:
-			wallet, err := descriptor.Parse(desc)
+			wallet, err := parseDescriptor(desc)
 			if err != nil {
 				return err
 			}
@@ -188,6 +188,17 @@ func (s *scannerService) WatchDescriptorWallet(
 	return nil
 }
 
+// parseDescriptor returns an error also for the malformed descriptors that the parser panics on.
+func parseDescriptor(desc string) (wallet descriptor.Wallet, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			wallet, err = nil, fmt.Errorf("invalid descriptor: %v", r)
+		}
+	}()
+
+	return descriptor.Parse(desc)
+}
+
 // requestsManager is responsible to resolve the requests that are waiting for in the queue.
 func (s *scannerService) requestsManager(ch chan<- Report, quitCh <-chan struct{}) {
 	for {
-- 
2.43.0


From 7a2e04e4a7f9ce0328a7c85a56f74dd8dc2ec527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:38 +0000
Subject: [PATCH 41/49] fix: a variable-length integer is not encoded in its
 shortest form

---
 pkg/protocol/varint.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pkg/protocol/varint.go b/pkg/protocol/varint.go
index 978cd94..da2fd83 100644
--- a/pkg/protocol/varint.go
+++ b/pkg/protocol/varint.go
@@ -82,9 +82,42 @@ func (vi VarInt) Int() (int, error) {
 	return 0, errInvalidVarIntValue
 }
 
+// shortest returns the same value in the type of its shortest encoding:
+// 0xFD, 0xFE and 0xFF in one byte would announce a longer form.
+func (vi VarInt) shortest() VarInt {
+	var u uint64
+	switch v := vi.Value.(type) {
+	case uint8:
+		u = uint64(v)
+	case uint16:
+		u = uint64(v)
+	case uint32:
+		u = uint64(v)
+	case uint64:
+		u = v
+	default:
+		return vi
+	}
+
+	if u < 0xFD {
+		return VarInt{Value: uint8(u)}
+	}
+
+	if u <= math.MaxUint16 {
+		return VarInt{Value: uint16(u)}
+	}
+
+	if u <= math.MaxUint32 {
+		return VarInt{Value: uint32(u)}
+	}
+
+	return VarInt{Value: u}
+}
+
 func (vi VarInt) MarshalBinary() ([]byte, error) {
 	buf := bytes.NewBuffer([]byte{})
 
+	vi = vi.shortest()
 	switch vi.Value.(type) {
 	case uint16:
 		if err := buf.WriteByte(0xFD); err != nil {
-- 
2.43.0


From 2b6d55ce2f73451342e5a3e8ea5176c9c2565122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 42/49] fix: a peer that stopped reading blocked the node and
 was never disconnected

---
 pkg/node/cmd_inv.go     |  2 +-
 pkg/node/cmd_ping.go    |  2 +-
 pkg/node/handle_ping.go |  2 +-
 pkg/node/node.go        | 22 +++++++++++++++++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/node/cmd_inv.go b/pkg/node/cmd_inv.go
index e61cd0f..cca8194 100644
--- a/pkg/node/cmd_inv.go
+++ b/pkg/node/cmd_inv.go
@@ -30,7 +30,7 @@ func (n *node) handleInv(_ *protocol.MessageHeader, payload io.Reader, p peer.Pe
 		return err
 	}
 
-	if _, err := conn.Write(msg); err != nil {
+	if err := n.write(conn, msg); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/cmd_ping.go b/pkg/node/cmd_ping.go
index 93c984c..4e274a6 100644
--- a/pkg/node/cmd_ping.go
+++ b/pkg/node/cmd_ping.go
@@ -26,7 +26,7 @@ func (n *node) handlePing(_ *protocol.MessageHeader, payload io.Reader, p peer.P
 		return err
 	}
 
-	if _, err := conn.Write(msg); err != nil {
+	if err := n.write(conn, msg); err != nil {
 		return err
 	}
 
diff --git a/pkg/node/handle_ping.go b/pkg/node/handle_ping.go
index d7300c8..ba8e7d9 100644
--- a/pkg/node/handle_ping.go
+++ b/pkg/node/handle_ping.go
@@ -120,7 +120,7 @@ func (n *node) monitorPeer(peer peer.Peer) {
 				return
 			}
 
-			if _, err := peer.Connection().Write(msg); err != nil {
+			if err := n.write(peer.Connection(), msg); err != nil {
 				n.notifyDisconnected(peer)
 				return
 			}
diff --git a/pkg/node/node.go b/pkg/node/node.go
index 80a2db9..f9acfb2 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -14,11 +14,13 @@ import (
 	"io"
 	"runtime/debug"
 	"sync"
+	"time"
 )
 
 const (
 	pingIntervalSec = 120
 	pingTimeoutSec  = 60
+	writeTimeoutSec = 10
 )
 
 type NodeService interface {
@@ -310,7 +312,25 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 		return err
 	}
 
-	_, err = conn.Write(msgSerialized)
+	return n.write(conn, msgSerialized)
+}
+
+// write sends bytes to a peer. A peer that doesn't read them in time must not block the node,
+// and nothing can be sent after a message that was sent in part: its connection is closed.
+func (n *node) write(conn io.Writer, b []byte) error {
+	if c, ok := conn.(interface{ SetWriteDeadline(time.Time) error }); ok {
+		if err := c.SetWriteDeadline(time.Now().Add(writeTimeoutSec * time.Second)); err != nil {
+			return err
+		}
+	}
+
+	_, err := conn.Write(b)
+	if err != nil {
+		if c, ok := conn.(io.Closer); ok {
+			c.Close()
+		}
+	}
+
 	return err
 }
 
-- 
2.43.0


From a00695ee88348123ded6d1743c002fb5cf690f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 43/49] fix: stopping the node left its connections open and
 its goroutines, Start among them, running

---
 pkg/node/chainsync.go   | 12 ++++++++++--
 pkg/node/cmd_block.go   |  6 +++++-
 pkg/node/cmd_cfilter.go |  5 ++++-
 pkg/node/cmd_headers.go |  6 +++++-
 pkg/node/cmd_pong.go    |  5 ++++-
 pkg/node/node.go        | 32 +++++++++++++++++++++++++++-----
 6 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/pkg/node/chainsync.go b/pkg/node/chainsync.go
index ac6f868..fe469c1 100644
--- a/pkg/node/chainsync.go
+++ b/pkg/node/chainsync.go
@@ -105,7 +105,12 @@ func (n *node) checkSyncedInitial(p peer.Peer) {
 			n.notifySynced()
 			return
 		}
-		time.Sleep(time.Second * 1)
+
+		select {
+		case <-time.After(time.Second * 1):
+		case <-n.quit:
+			return
+		}
 	}
 }
 
@@ -127,7 +132,10 @@ func (n *node) notifySynced() {
 	n.notifySyncedOnce.Do(
 		func() {
 			log.Debugf("node: syncing block headers finished")
-			n.syncedChan <- struct{}{}
+			select {
+			case n.syncedChan <- struct{}{}:
+			case <-n.quit:
+			}
 		},
 	)
 }
diff --git a/pkg/node/cmd_block.go b/pkg/node/cmd_block.go
index a87f6cf..896f6d9 100644
--- a/pkg/node/cmd_block.go
+++ b/pkg/node/cmd_block.go
@@ -55,7 +55,11 @@ func (n *node) handleBlock(_ *protocol.MessageHeader, payload io.Reader, p peer.
 		return fmt.Errorf("block from peer %s doesn't extend the tip", p.ID())
 	}
 
-	n.blockHeadersCh <- *msgBlock.Header
+	select {
+	case n.blockHeadersCh <- *msgBlock.Header:
+	case <-n.quit:
+		return nil
+	}
 	n.memPool.CheckTxConfirmed(msgBlock.Block)
 
 	return nil
diff --git a/pkg/node/cmd_cfilter.go b/pkg/node/cmd_cfilter.go
index 0b4fa46..3d1faa8 100644
--- a/pkg/node/cmd_cfilter.go
+++ b/pkg/node/cmd_cfilter.go
@@ -16,7 +16,10 @@ func (n *node) handleCFilter(_ *protocol.MessageHeader, payload io.Reader, p pee
 	}
 
 	// send the cfilter to the chan
-	n.compactFiltersCh <- cfilter
+	select {
+	case n.compactFiltersCh <- cfilter:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/cmd_headers.go b/pkg/node/cmd_headers.go
index 300fb93..0069d63 100644
--- a/pkg/node/cmd_headers.go
+++ b/pkg/node/cmd_headers.go
@@ -78,7 +78,11 @@ func (n *node) handleHeaders(_ *protocol.MessageHeader, payload io.Reader, p pee
 		}
 
 		for _, v := range headers.Headers {
-			n.blockHeadersCh <- *v
+			select {
+			case n.blockHeadersCh <- *v:
+			case <-n.quit:
+				return nil
+			}
 		}
 
 		log.Debugf("node: local tip: %v", headers.Headers[len(headers.Headers)-1].Height)
diff --git a/pkg/node/cmd_pong.go b/pkg/node/cmd_pong.go
index 69a47e5..4cf772a 100644
--- a/pkg/node/cmd_pong.go
+++ b/pkg/node/cmd_pong.go
@@ -15,7 +15,10 @@ func (n *node) handlePong(_ *protocol.MessageHeader, payload io.Reader, p peer.P
 		return err
 	}
 
-	n.pongsCh <- pong.Nonce
+	select {
+	case n.pongsCh <- pong.Nonce:
+	case <-n.quit:
+	}
 
 	return nil
 }
diff --git a/pkg/node/node.go b/pkg/node/node.go
index f9acfb2..3d73946 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -3,6 +3,7 @@ package node
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"github.com/sirupsen/logrus"
 	log "github.com/sirupsen/logrus"
@@ -23,6 +24,9 @@ const (
 	writeTimeoutSec = 10
 )
 
+// ErrStopped is returned by Start when the node is stopped before it is synced.
+var ErrStopped = errors.New("node stopped")
+
 type NodeService interface {
 	Start(initialOutboundPeerAddr string) error
 	Stop() error
@@ -53,6 +57,7 @@ type node struct {
 	memPool MemPool
 
 	quit       chan struct{}
+	quitOnce   sync.Once
 	syncedChan chan struct{}
 
 	notifySyncedOnce sync.Once
@@ -139,14 +144,20 @@ func (n *node) Start(initialOutboundPeerAddr string) error {
 
 	n.memPool.Start()
 
-	<-n.syncedChan
-
-	return nil
+	select {
+	case <-n.syncedChan:
+		return nil
+	case <-n.quit:
+		return ErrStopped
+	}
 }
 
 func (n *node) Stop() error {
-	n.memPool.Stop()
-	close(n.quit)
+	n.quitOnce.Do(func() {
+		n.memPool.Stop()
+		close(n.quit)
+	})
+
 	return nil
 }
 
@@ -176,6 +187,17 @@ func (n *node) handlePeerMessages(p peer.Peer) {
 	tmp := make([]byte, protocol.MsgHeaderLength)
 	conn := p.Connection()
 
+	// a stopped node leaves its peers
+	done := make(chan struct{})
+	defer close(done)
+	go func() {
+		select {
+		case <-n.quit:
+			conn.Close()
+		case <-done:
+		}
+	}()
+
 	for {
 		if _, err := io.ReadFull(conn, tmp); err != nil {
 			logrus.Errorf(err.Error())
-- 
2.43.0


From 5dbf501367a8b28907a7f4b4d1a8c92fc80d9d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 44/49] fix: the daemon could not be stopped before its node
 was synced

---
 internal/interface/web-socket/server.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f35dd11..41b4c8d 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -52,7 +52,25 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	errC := make(chan error, 1)
 
 	log.Infoln("neutrinod: waiting for node to sync with peer...")
-	if err := n.nodeSvc.Start(n.peerUrl); err != nil {
+	// the shutdown signal may come before the node is synced
+	synced := make(chan struct{})
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = n.nodeSvc.Stop()
+		case <-synced:
+		}
+	}()
+
+	err := n.nodeSvc.Start(n.peerUrl)
+	close(synced)
+	if err != nil {
+		if ctx.Err() != nil {
+			_ = n.nodeSvc.Stop()
+			stop()
+			close(errC)
+			return errC
+		}
 		errC <- err
 	}
 	log.Infoln("neutrinod: node is synced with peer")
-- 
2.43.0


From 291ec7d9ac7cd37db4cd6c269b0a78a9081882bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 45/49] fix: the daemon served its clients although its node
 could not be started

---
 internal/interface/web-socket/server.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index 41b4c8d..f8af03f 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -65,13 +65,13 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	err := n.nodeSvc.Start(n.peerUrl)
 	close(synced)
 	if err != nil {
-		if ctx.Err() != nil {
-			_ = n.nodeSvc.Stop()
-			stop()
-			close(errC)
-			return errC
+		_ = n.nodeSvc.Stop()
+		if ctx.Err() == nil {
+			errC <- err
 		}
-		errC <- err
+		stop()
+		close(errC)
+		return errC
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-- 
2.43.0


From 85ae1a1f1bb636232d63d2bc765882bf7e59c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 46/49] fix: the daemon took the genesis block of regtest for
 that of its network

---
 internal/interface/web-socket/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/interface/web-socket/server.go b/internal/interface/web-socket/server.go
index f8af03f..918145c 100644
--- a/internal/interface/web-socket/server.go
+++ b/internal/interface/web-socket/server.go
@@ -75,7 +75,7 @@ func (n *NeutrinoServer) Start(ctx context.Context, stop context.CancelFunc) <-c
 	}
 	log.Infoln("neutrinod: node is synced with peer")
 
-	genesisBlockHashStr := protocol.GetCheckpoints(protocol.MagicRegtest)[0]
+	genesisBlockHashStr := protocol.GetCheckpoints(protocol.Networks[n.nodeCfg.Network])[0]
 	genesisBlockHash, err := chainhash.NewHashFromStr(genesisBlockHashStr)
 	if err != nil {
 		errC <- err
-- 
2.43.0


From a713023214bc0fadbf0f77a15da1e5166da37bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:40 +0000
Subject: [PATCH 47/49] fix: connect to the database with exactly the
 configured user, password, host and name

---
 .../storage/db/pg/db_service.go               | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/internal/infrastructure/storage/db/pg/db_service.go b/internal/infrastructure/storage/db/pg/db_service.go
index b97435c..2b9cb7f 100644
--- a/internal/infrastructure/storage/db/pg/db_service.go
+++ b/internal/infrastructure/storage/db/pg/db_service.go
@@ -3,9 +3,12 @@ package dbpg
 import (
 	"context"
 	"database/sql"
-	"fmt"
 	"github.com/go-testfixtures/testfixtures/v3"
 	"github.com/golang-migrate/migrate/v4"
+	"net"
+	"net/url"
+	"strconv"
+	"strings"
 	"sync"
 
 	"github.com/golang-migrate/migrate/v4/database/postgres"
@@ -16,11 +19,10 @@ import (
 )
 
 const (
-	postgresDriver             = "postgres"
-	insecureDataSourceTemplate = "postgresql://%s:%s@%s:%d/%s?sslmode=disable"
-	dataSourceTemplate         = "host=%s port=%d user=%s password=%s dbname=%s"
-	postgresDialect            = "postgres"
-	fixturesPath               = "../fixtures"
+	postgresDriver     = "postgres"
+	dataSourceTemplate = "host=%s port=%d user=%s password=%s dbname=%s"
+	postgresDialect    = "postgres"
+	fixturesPath       = "../fixtures"
 )
 
 var (
@@ -95,16 +97,19 @@ func migrateDb(db *sql.DB, migrationSourceUrl string) error {
 	return nil
 }
 
-// insecureDataSourceStr converts database configuration params to connection string
+// insecureDataSourceStr converts database configuration params to connection string.
+// The params may contain any characters, those reserved in URLs are escaped.
 func insecureDataSourceStr(dbConfig DbConfig) string {
-	return fmt.Sprintf(
-		insecureDataSourceTemplate,
-		dbConfig.DbUser,
-		dbConfig.DbPassword,
-		dbConfig.DbHost,
-		dbConfig.DbPort,
-		dbConfig.DbName,
-	)
+	dataSource := url.URL{
+		Scheme: "postgresql",
+		User:   url.UserPassword(dbConfig.DbUser, dbConfig.DbPassword),
+		// an IPv6 host may be given with or without brackets
+		Host:     net.JoinHostPort(strings.Trim(dbConfig.DbHost, "[]"), strconv.Itoa(dbConfig.DbPort)),
+		Path:     "/" + dbConfig.DbName,
+		RawQuery: "sslmode=disable",
+	}
+
+	return dataSource.String()
 }
 
 // CreateLoader creates loader that is to be used to load fixtures from given
-- 
2.43.0


From 66a785a76da147019347d8f9be24c1cae8275347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 48/49] fix: a peer whose address was refused was connected to,
 and the connection left open

---
 pkg/peer/peer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index ccae398..914a4a8 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -35,12 +35,13 @@ type elementsPeer struct {
 }
 
 func NewElementsPeer(peerAddr string) (Peer, error) {
-	conn, err := net.Dial("tcp", peerAddr)
+	// a refused address must not leave a connection open
+	netAddress, err := protocol.ParseNodeAddr(peerAddr)
 	if err != nil {
 		return nil, err
 	}
 
-	netAddress, err := protocol.ParseNodeAddr(peerAddr)
+	conn, err := net.Dial("tcp", peerAddr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 066d7dba1477a0b112c6652d7b1da74487fe39db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 49/49] fix: submitting transactions often kept a stalled peer
 from being given up and blocked them all

---
 pkg/node/node.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pkg/node/node.go b/pkg/node/node.go
index 3d73946..d5da495 100644
--- a/pkg/node/node.go
+++ b/pkg/node/node.go
@@ -49,6 +49,10 @@ type node struct {
 	DisconCh  chan peer.Peer
 	UserAgent string
 
+	// writes are the connections being written to
+	writes    map[io.Writer]*connWrites
+	writesMtx sync.Mutex
+
 	compactFiltersCh chan protocol.MsgCFilter
 	blockHeadersCh   chan block.Header
 	filtersDb        repository.FilterRepository
@@ -63,6 +67,12 @@ type node struct {
 	notifySyncedOnce sync.Once
 }
 
+// connWrites makes the writes to a connection wait for each other.
+type connWrites struct {
+	sync.Mutex
+	count int
+}
+
 var _ NodeService = (*node)(nil)
 
 type NodeConfig struct {
@@ -87,6 +97,7 @@ func New(config NodeConfig) (NodeService, error) {
 		peersPongCh: make(map[peer.PeerID]chan uint64),
 		DisconCh:    make(chan peer.Peer),
 		UserAgent:   config.UserAgent,
+		writes:      make(map[io.Writer]*connWrites),
 
 		compactFiltersCh: make(chan protocol.MsgCFilter),
 		blockHeadersCh:   make(chan block.Header),
@@ -340,6 +351,10 @@ func (n *node) sendMessage(conn io.Writer, msg *protocol.Message) error {
 // write sends bytes to a peer. A peer that doesn't read them in time must not block the node,
 // and nothing can be sent after a message that was sent in part: its connection is closed.
 func (n *node) write(conn io.Writer, b []byte) error {
+	// a deadline set while another write is blocked would extend the time of that one
+	unlock := n.lockWrites(conn)
+	defer unlock()
+
 	if c, ok := conn.(interface{ SetWriteDeadline(time.Time) error }); ok {
 		if err := c.SetWriteDeadline(time.Now().Add(writeTimeoutSec * time.Second)); err != nil {
 			return err
@@ -356,6 +371,30 @@ func (n *node) write(conn io.Writer, b []byte) error {
 	return err
 }
 
+// lockWrites waits for the other writes to a connection to end.
+func (n *node) lockWrites(conn io.Writer) (unlock func()) {
+	n.writesMtx.Lock()
+	w, ok := n.writes[conn]
+	if !ok {
+		w = new(connWrites)
+		n.writes[conn] = w
+	}
+	w.count++
+	n.writesMtx.Unlock()
+
+	w.Lock()
+
+	return func() {
+		w.Unlock()
+
+		n.writesMtx.Lock()
+		defer n.writesMtx.Unlock()
+		if w.count--; w.count == 0 {
+			delete(n.writes, conn)
+		}
+	}
+}
+
 // on disconnect, remove the peer from the node.
 // and close the connection.
 func (n *node) disconnectPeer(p peer.Peer) {
-- 
2.43.0

