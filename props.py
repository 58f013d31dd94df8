"""Registry of properties and of the symbolic jobs that decide them."""
GROUP_FLAGS = {'net-dtls': ['-DDTLS'], 'net-dtls6': ['-DDTLS', '-DDTLS6'], 'tester': ['-DUDP', '-Dmain=tester_main'], 'tester6': ['-DUDP6', '-Dmain=tester_main']}
GROUP_LIBS = {}
ASSUMPTIONS = [
    'clang 18 front end at -O0 plus mem2reg-style clean-up gives the meaning of the source on x86-64; gcc builds are assumed to agree',
    'allocation never fails; uninitialised locals and fresh heap memory hold a fixed pattern on both sides',
    'log output (Process::putLog) is replaced by a no-op; the text built for it is still executed',
    'engine/symx interprets LLVM IR faithfully: cross-checked on every run by replaying solver-made inputs on a native AddressSanitizer build and comparing every observation',
]
PROPS = {}


def prop(id, title, statement, over, quant, why, files, mech, bounds, jobs, assumptions=(), state=(), note=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, bounds=bounds, jobs=jobs, assumptions=list(assumptions), state=[dict(name=s) for s in state], note=note)


PK = 'MQTTSNPacket/src/'
GW = 'MQTTSNGateway/src/'
PKFILES = [PK + f for f in ('MQTTSNPacket.c', 'MQTTSNConnectClient.c', 'MQTTSNConnectServer.c', 'MQTTSNSerializePublish.c', 'MQTTSNDeserializePublish.c', 'MQTTSNSubscribeClient.c', 'MQTTSNSubscribeServer.c',
                            'MQTTSNUnsubscribeClient.c', 'MQTTSNUnsubscribeServer.c', 'MQTTSNSearchClient.c', 'MQTTSNSearchServer.c')]
MSGS = [0, 1, 2] + list(range(4, 17)) + list(range(18, 25)) + [26, 27, 28, 29]
VARMSG = [2, 4, 7, 9, 10, 12, 18, 20, 22, 26, 28]


def pkjobs(mode, reach):
    out = []
    for m in MSGS:
        out.append(dict(h='pk_msg.c', group='packet', params=dict(msg=m, mode=mode, n0=0, n1=6), thorough=dict(n1=40), time=100, samples=4, reach=reach))
        if m in VARMSG:
            out.append(dict(h='pk_msg.c', group='packet', params=dict(msg=m, mode=mode, n0=244, n1=259), thorough=dict(n0=230, n1=300), time=100, samples=2, reach=reach))
    return out


prop('C01', 'MQTT-SN messages survive an encode/decode round trip',
     'For every MQTT-SN 1.2 message type the library can build, decoding the encoded message gives back exactly the values it was built from: flags, QoS (including -1), identifiers, durations, return codes, topics of all three kinds, strings and payloads. The encoded bytes are recognised by the packet reader as a packet of that type.',
     ['inputs'], 'every field value, every string/payload content and length up to the bound, both string representations',
     'test1 round-trips one fixed value set per message; a value-dependent defect (length 255 vs 256, DUP bit, empty string, zero duration) is outside the sample.',
     PKFILES, [dict(name='MQTTSNSerialize_* / MQTTSNDeserialize_* pairs', where=PK), dict(name='MQTTSNPacket_encode/decode, read_nb', where=PK + 'MQTTSNPacket.c')],
     'strings, topics, payloads and gateway addresses of 0..6 bytes and 244..259 bytes (thorough: 0..40 and 230..300), all contents; long QoS -1 topic names up to 4 bytes; every other field over its full width (return codes of CONNACK and the will responses 0..127)',
     pkjobs(1, ['end']))
prop('C02', 'Encoded MQTT-SN messages have the byte layout of the MQTT-SN 1.2 specification',
     'For every MQTT-SN message type and all field values, the bytes produced are exactly those laid down by the MQTT-SN 1.2 specification: the shortest length field, message type, flag bits, big-endian integers, and variable part, with nothing before, between or after. The reported length is the number of those bytes.',
     ['inputs'], 'every field value, every string/payload content and length up to the bound',
     'the tests never look at the bytes: encode and decode can be wrong together and still round-trip.',
     PKFILES, [dict(name='MQTTSNSerialize_*', where=PK), dict(name='MQTTSNFlags bit-field layout', where=PK + 'MQTTSNPacket.h')],
     'as C01; oracle: harness/snref.h, an encoder written from the specification', pkjobs(2, ['end']),
     ['little-endian bit-field layout (x86-64); the REVERSED variant is not compiled by any build file'])
prop('C03', 'Encoding never writes outside the buffer and reports a buffer that is too small',
     'Encoding any MQTT-SN message into a buffer of any capacity never touches a byte outside that capacity. It reports success, with the exact length, when the message fits and an error, never success, when it does not.',
     ['inputs'], 'every message, field value and capacity from 0 to two more than is needed',
     'test1 always passes a 100 byte buffer that is large enough.',
     PKFILES, [dict(name='capacity check in every MQTTSNSerialize_*', where=PK), dict(name='MQTTSNPacket_len', where=PK + 'MQTTSNPacket.c')],
     'as C01, capacity symbolic in 0..needed+2', pkjobs(3, ['fits', 'too small']))


def desjobs():
    out = []
    for m in [x for x in MSGS if x not in (14, 16)]:
        out.append(dict(h='pk_deser.c', group='packet', params=dict(msg=m, n0=0, n1=16), thorough=dict(n1=48), time=100, samples=4, reach=['accepted', 'rejected']))
        out.append(dict(h='pk_deser.c', group='packet', params=dict(msg=m, n0=254, n1=260), thorough=dict(n0=240, n1=300), time=100, samples=2, reach=['accepted', 'rejected']))
    return out


prop('C04', 'Decoding arbitrary bytes stays inside them and accepts only what is well formed',
     'Decoding any byte sequence as any MQTT-SN message type reads nothing outside those bytes and returns only strings, topics and payloads that lie inside them. A packet that is truncated, shorter than the fixed part of its type or of another type is never accepted; a well-formed one is accepted with exactly the values its bytes spell.',
     ['inputs'], 'every byte sequence up to the bound, for every decoder',
     'test1 only decodes what it has just encoded; hostile or truncated packets are not tried.',
     PKFILES, [dict(name='length checks in every MQTTSNDeserialize_*', where=PK), dict(name='readMQTTSNString bounds', where=PK + 'MQTTSNPacket.c')],
     'received sizes 0..16 and 254..260 bytes (thorough: 0..48 and 240..300), all contents, 25 decoders', desjobs(),
     ['where the specification leaves acceptance open (e.g. an unknown protocol id, topic type 3, DISCONNECT with a one byte body) only memory safety and values are asserted'])
prop('C05', 'MQTT-SN length field and packet framing are exact for every size',
     'For every message size up to 65535 bytes the length field is the shortest one, decodes back to the same size and is counted correctly. The packet readers recognise a received datagram exactly when its declared length equals the received length and it has a message type, and return that type.',
     ['inputs'], 'every message size; every datagram up to the bound; transport failure',
     'test1 exercises two or three sizes below 255.',
     [PK + 'MQTTSNPacket.c'], [dict(name='MQTTSNPacket_len / encode / decode / read / read_nb', where=PK + 'MQTTSNPacket.c')],
     'sizes 1..65535 (all); datagrams of 0..12 bytes (thorough: 0..64)',
     [dict(h='pk_frame.c', group='packet', params=dict(what=0), time=60, samples=3, reach=['end']), dict(h='pk_frame.c', group='packet', params=dict(what=3), time=60, reach=['end']),
      dict(h='pk_frame.c', group='packet', params=dict(what=1, n=12), thorough=dict(n=64), time=60, reach=['recognised', 'rejected']),
      dict(h='pk_frame.c', group='packet', params=dict(what=2, n=12), thorough=dict(n=64), time=60, reach=['recognised', 'rejected'])])
GWT = [GW + 'MQTTSNGWTopic.cpp', GW + 'MQTTSNGWTopic.h']
prop('C10', 'A client\'s topic registry keeps names and topic ids one to one',
     'In a client\'s topic registry every registered topic name has exactly one topic id, and no two registered names share an id. Registering a name again gives the id it already has. The reserved ids 0x0000 and 0xFFFF are never assigned. Looking up a name or an id finds exactly the topic it belongs to. The registry is bounded (50 topics); when full, known topics are still served and new ones are refused. Erasing the normal topics keeps the predefined ones.',
     ['inputs', 'histories'], 'every sequence of registrations, predefined entries, look-ups and erasures up to the bound, all names',
     'testPFW tries one fixed list of names in one order.', GWT, [dict(name='Topics::add / getTopicByName / getTopicById / eraseNormal', where=GW + 'MQTTSNGWTopic.cpp'), dict(name='Topics::getNextTopicId', where=GW + 'MQTTSNGWTopic.cpp')],
     'sequences of 3 operations (thorough: 4) with names of 1..2 bytes, any content but NUL; 6 (thorough: 7) registrations, predefined entries and erasures of 5 names; ids around the wrap at 0xFFFE; capacity with 50 entries and any 2-byte name',
     [dict(h='gw_topics.cpp', group='gateway', params=dict(what=0, k=3, len=2), thorough=dict(k=4), time=120, thorough_time=800, samples=4, reach=['end', 'erased', 'found by id', 'found by name', 'known name']),
      dict(h='gw_topics.cpp', group='gateway', params=dict(what=0, k=3, len=1, skip=65533), time=120, samples=2, reach=['end']),
      dict(h='gw_topics.cpp', group='gateway', params=dict(what=0, deep=5, k=6), thorough=dict(k=7), time=120, samples=2, reach=['end', 'erased', 'known name']),
      dict(h='gw_topics.cpp', group='gateway', params=dict(what=1), time=120, samples=2, reach=['full', 'room again', 'served', 'end'])])
prop('C11', 'Topic filters match exactly the topic names MQTT says they match',
     'A topic name matches a subscribed topic filter exactly when MQTT 3.1.1 section 4.7 says it does: + stands for one whole level, possibly empty, # for any number of remaining levels including the parent level, everything else is compared literally.',
     ['inputs'], 'every valid filter and topic name up to the bound',
     'testPFW checks a few dozen filter/name pairs.', GWT, [dict(name='Topic::isMatch', where=GW + 'MQTTSNGWTopic.cpp'), dict(name='Topics::match', where=GW + 'MQTTSNGWTopic.cpp')],
     'filters and names of 1..4 bytes (thorough: 5), all contents, via Topic::isMatch; 1..3 bytes through Topics::match; valid filters, names without wildcards, no leading $',
     [dict(h='gw_match.cpp', group='gateway', params=dict(via=0, fl=4, tl=4), thorough=dict(fl=5, tl=5), time=150, thorough_time=850, samples=8, reach=['match', 'no match']),
      dict(h='gw_match.cpp', group='gateway', params=dict(via=1, fl=3, tl=3), thorough=dict(fl=4, tl=4), time=120, samples=4, reach=['match', 'no match'])])
prop('C12', 'The gateway remembers which topic each outstanding message was sent with',
     'For each client the gateway remembers, per message id, topic id and topic kind of the request still waiting for an acknowledgement, until it is acknowledged (erased), replaced or the map is cleared; a subscription with a wildcard is remembered with topic id 0. Entries of other message ids are never disturbed. At least 20 messages are remembered and the number is bounded.',
     ['inputs', 'histories'], 'every sequence of add, erase, look-up and clear up to the bound; all message ids, topic ids and names',
     'testPFW adds 30 fixed ids in order.', GWT, [dict(name='TopicIdMap', where=GW + 'MQTTSNGWTopic.cpp'), dict(name='TopicIdMapElement wildcard detection', where=GW + 'MQTTSNGWTopic.cpp')],
     'sequences of 3 operations with 1-byte names, 2 operations with names up to 3 bytes (thorough: 4 and 3); 6 (thorough: 7) additions and erasures of 4 ids; bound: up to 200 additions after 0..30 erasures of unknown ids',
     [dict(h='gw_idmap.cpp', group='gateway', params=dict(what=0, k=2, len=3), thorough=dict(k=3, len=2), time=150, thorough_time=800, samples=4, reach=['end', 'replaced', 'wildcard', 'erased', 'cleared']),
      dict(h='gw_idmap.cpp', group='gateway', params=dict(what=0, k=3, len=1), thorough=dict(k=4), time=150, thorough_time=800, samples=4, reach=['end', 'replaced', 'wildcard', 'erased', 'cleared']),
      dict(h='gw_idmap.cpp', group='gateway', params=dict(what=0, deep=4, k=6), thorough=dict(k=7), time=150, samples=2, reach=['end', 'replaced', 'erased']),
      dict(h='gw_idmap.cpp', group='gateway', params=dict(what=1), time=100, samples=2, reach=['end'])])
MQ = [GW + f for f in ('MQTTGWPacket.cpp', 'MQTTGWPacket.h', 'linux/Network.cpp')]


def mq(what, n0=0, n1=4, reach=('end',), **kw):
    p = dict(what=what, n0=n0, n1=n1)
    p.update({k: kw.pop(k) for k in list(kw) if k in ('t0', 't1', 'print')})
    return dict(h='gw_mqtt.cpp', group='gateway', params=p, time=kw.pop('time', 120), samples=3, reach=list(reach), **kw)


prop('C07', 'MQTT packets sent to the broker have the byte layout of MQTT 3.1.1',
     'Every MQTT packet the gateway builds (CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE, acknowledgements, PINGREQ, DISCONNECT) has exactly the bytes MQTT 3.1/3.1.1 prescribes for its contents, whatever the size, and taking it apart gives the contents back. Reading or setting the message id touches only the message id, and copying or printing a packet never changes it.',
     ['inputs'], 'every field value and string/payload content up to the bound, and sizes around 128, 256 and 16384',
     'no existing test builds an MQTT packet.', MQ[:2], [dict(name='MQTTGWPacket::setCONNECT/setPUBLISH/setSUBSCRIBE/setAck', where=GW + 'MQTTGWPacket.cpp'), dict(name='MQTTGWPacket::getPacketData, print, operator=', where=GW + 'MQTTGWPacket.cpp')],
     'payloads and topics of 0..4 bytes and 118..128, 254..258, 16374..16384 bytes, all contents; all flags, ids and timers; oracle: harness/mqttref.h, written from MQTT 3.1.1',
     [mq(w) for w in (1, 3, 4, 5, 6, 7, 8, 10, 12, 14)] + [mq(3, 118, 128, print=2), mq(3, 16374, 16384, t1=1, print=2), mq(8, 254, 258), mq(10, 254, 258)])


def gs(**kw):
    p = {k: kw.pop(k) for k in list(kw) if k in ('what', 'n', 'tls', 'rem', 'pieces', 'retries')}
    full = ['received', 'cut off', 'too long', 'publish', 'ack', 'connack', 'suback', 'end'] if not p.get('what') else ['received', 'end']
    return dict(h='gw_stream.cpp', group='gateway', params=p, time=kw.pop('time', 200), thorough_time=800, samples=3, reach=full, **kw)


prop('C08', 'MQTT packets from the broker are taken off the stream exactly, however it is cut',
     'Whatever bytes the broker connection delivers, and however they are cut into pieces, a complete packet is received whole and not one byte of the next packet is consumed. A connection closed or failing inside a packet is reported and never yields a packet. Taking apart a received packet never reads outside it, and a malformed PUBLISH, acknowledgement, CONNACK or SUBACK is rejected. This holds for plain and TLS connections.',
     ['inputs', 'histories', 'crash_points'], 'every byte stream up to the bound, every way of cutting it, end of stream or error at every point',
     'no existing test reads from a broker connection.', MQ, [dict(name='MQTTGWPacket::recv', where=GW + 'MQTTGWPacket.cpp'), dict(name='Network::recv', where=GW + 'linux/Network.cpp')],
     'streams of 0..5 bytes (thorough: 7), all contents, up to 3 pieces; packets of 300 and 70000 bytes in pieces; remaining length fields of at most 3 bytes (a 4-byte field must only be refused)',
     [gs(n=5, thorough=dict(n=7)), gs(n=5, tls=1, thorough=dict(n=6)), gs(what=1, rem=300), gs(what=1, rem=300, tls=1), gs(what=1, rem=70000), gs(what=1, rem=70000, tls=1, tier='thorough')],
     ['recv/SSL_read are replaced by a stand-in that delivers the symbolic stream in symbolic pieces'])


def sp(**kw):
    p = {k: kw.pop(k) for k in list(kw) if k in ('what', 'n0', 'n1')}
    return dict(h='gw_packet.cpp', group='gateway', params=p, time=kw.pop('time', 120), samples=kw.pop('samples', 3), reach=kw.pop('reach', ['end']), **kw)


prop('C09', 'The gateway\'s view of a MQTT-SN packet agrees with its bytes',
     'For every datagram received from the sensor network, the gateway\'s packet object holds exactly its bytes, and type, DUP flag, QoS -1 test, message id and printed form are those its bytes spell, without ever looking outside it, even when it is truncated or lies about its length. Setting the message id changes the message id and nothing else; a copy is independent; what is sent is what is held. Every packet the gateway builds has the bytes of the specification, or is empty when it would exceed the maximum packet size.',
     ['inputs'], 'every datagram and every field value/content up to the bound, and sizes around 255 and around the 1024 byte maximum',
     'no existing test builds a gateway packet object from bytes a client could send.', [GW + 'MQTTSNGWPacket.cpp', GW + 'MQTTSNGWPacket.h'], [dict(name='MQTTSNPacket::recv/getType/getMsgId/setMsgId', where=GW + 'MQTTSNGWPacket.cpp'), dict(name='MQTTSNPacket::set*', where=GW + 'MQTTSNGWPacket.cpp')],
     'datagrams of 0..10 and 250..260 bytes (thorough: 0..24), all contents; built packets with variable parts of 0..3, 246..252 and 1012..1022 bytes',
     [sp(n1=10, reach=['end', 'connack', 'has id', 'no id', 'too short'], thorough=dict(n1=24)), sp(n0=250, n1=260, reach=['end', 'has id'])]
     + [sp(what=w, n1=3) for w in (2, 4, 5, 6, 8, 10, 11, 12, 13, 14, 15, 16, 19, 21, 22, 23, 24, 27, 29)]
     + [sp(what=12, n0=246, n1=252), sp(what=12, n0=1012, n1=1020, reach=['end', 'too long']), sp(what=10, n0=1014, n1=1022, reach=['end', 'too long']), sp(what=4, n0=246, n1=252)],
     ['SensorNetwork::read/unicast/broadcast are replaced by stand-ins holding the symbolic datagram'])
HANDLERS = [GW + f for f in ('MQTTSNGWPacketHandleTask.cpp', 'MQTTSNGWClientRecvTask.cpp', 'MQTTSNGWClientSendTask.cpp', 'MQTTSNGWBrokerRecvTask.cpp', 'MQTTSNGWBrokerSendTask.cpp', 'MQTTSNGWClient.cpp', 'MQTTSNGWClientList.cpp')]
CONN = [GW + 'MQTTSNGWConnectionHandler.cpp', GW + 'MQTTGWConnectionHandler.cpp']
PUB = [GW + 'MQTTSNGWPublishHandler.cpp', GW + 'MQTTGWPublishHandler.cpp']
SUB = [GW + 'MQTTSNGWSubscribeHandler.cpp', GW + 'MQTTGWSubscribeHandler.cpp']
FIX = ['the sensor network, the TCP connection, the clock and the signal flag are stand-ins (harness/gwfix.h); the tasks run one after another until all queues are empty, so races between tasks are outside',
       'memory of the client is bounded as configured: 10 clients, 50 topics, 20 remembered messages']


def e2e(h, reach=('end',), **kw):
    keys = ('time', 'thorough_time', 'thorough', 'tier', 'samples', 'defs', 'cost', 'switches', 'races', 'thorough_switches')
    o = {k: kw.pop(k) for k in keys if k in kw}
    return dict(h=h, group=kw.pop('group', 'gateway'), params=kw, time=o.pop('time', 200), thorough_time=o.pop('thorough_time', 850), samples=o.pop('samples', 3), reach=list(reach), **o)


prop('C16', 'The state of each client session follows MQTT-SN and the broker connection',
     'A client is disconnected, connecting, active, asleep or awake exactly as the messages it sent and the broker\'s answers say. CONNACK accepting makes it active, refusing makes it disconnected; DISCONNECT ends the session at the broker, with a duration it puts the client to sleep without the broker noticing; PINGREQ wakes it until PINGRESP; a broker connection that is closed, fails or cannot be written ends the session. Each message gets its answer and nothing else is sent; the connection to the broker is open exactly while it is needed. A client that never connected gets nothing; one no longer connected is answered with DISCONNECT.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of client messages, broker messages, and broker failures up to the bound, from every kind of session state; all return codes, durations and payload bytes',
     'no existing test drives a session; a wrong transition shows only after a particular sequence.', HANDLERS + CONN, [dict(name='Client::updateStatus/connackSended/disconnected', where=GW + 'MQTTSNGWClient.cpp'), dict(name='ClientRecvTask::run', where=GW + 'MQTTSNGWClientRecvTask.cpp'), dict(name='BrokerRecvTask::run, BrokerSendTask::run', where=GW)],
     'one client; 2 steps from a new client, 4 from an active one, 5 from the point of going to sleep (thorough: 5 and 6), 10 kinds of step; DISCONNECT with duration while connecting and messages of the other kinds while connecting are outside',
     [e2e('gw_state.cpp', **{'from': 0}, k=2, thorough=dict(k=2), reach=['connect', 'connack', 'disconnect', 'end']), e2e('gw_state.cpp', **{'from': 1}, k=4, thorough=dict(k=5), reach=['connect', 'disconnect', 'sleep', 'closed by the broker', 'broker cannot be reached', 'end']),
      e2e('gw_state.cpp', **{'from': 2}, k=5, thorough=dict(k=6), reach=['connect', 'disconnect', 'sleep', 'asleep again', 'closed by the broker', 'end'])], FIX, ['ClientStatus of every client', 'socket of every client'])
FWD = [GW + f for f in ('MQTTSNGWForwarder.cpp', 'MQTTSNGWEncapsulatedPacket.cpp', 'MQTTSNGWEncapsulatedPacket.h', 'MQTTSNGWAdapterManager.cpp')]
prop('C19', 'Forwarder encapsulation is exact and safe for any packet and node id',
     'An encapsulated packet is the header with length, type and control octet, then the wireless node id and the packet, whatever their sizes up to a packet of the maximum size; taking it apart gives the same node id and packet back, node ids are equal exactly when length and bytes are. An encapsulated datagram with a header that is not inside it, or without a packet behind it, is discarded without a trace: nothing is answered, passed on, changed or leaked.',
     ['inputs'], 'every node id and packet up to the bounds, every datagram up to the bound',
     'no existing test encapsulates anything.', FWD[1:3] + HANDLERS[1:2], [dict(name='MQTTSNGWEncapsulatedPacket::serialize/desirialize', where=FWD[1]), dict(name='WirelessNodeId', where=FWD[1]), dict(name='ClientRecvTask::run', where=HANDLERS[1])],
     'node ids of 0..3 and 250..252 bytes, packets of 2..4 and 1020..1024 bytes, all contents; messages to a forwarded client with payloads of 1000..1016 bytes; datagrams of 2..8 bytes (thorough: 10) whose inner packet has at most 2 bytes',
     [e2e('gw_fwd.cpp', what=3), e2e('gw_fwd.cpp', what=3, k0=250, k1=252), e2e('gw_fwd.cpp', what=3, n0=1020, n1=1024), e2e('gw_fwd.cpp', what=1, reach=['end', 'too long']), e2e('gw_fwd.cpp', what=2, n=8, thorough=dict(n=10), reach=['bye', 'discarded', 'ping', 'end'])], FIX)
prop('C20', 'A client is reached where it connected from, behind a forwarder or directly',
     'A client that connects through a forwarder is known by forwarder and wireless node id: what that node sends is the client\'s, and everything for the client goes to that forwarder with that node id. It may move to another node id, another forwarder or a direct address by connecting from there, and back; from then on it is reached there only, its former place is free for another client, and no other client is affected. Messages from nodes and forwarders nobody knows are discarded.',
     ['histories', 'inputs'], 'every history of connects, pings and publishes in both directions of two clients at six places; node ids symbolic',
     'no existing test has a forwarder.', HANDLERS[:2] + HANDLERS[5:] + FWD, [dict(name='Forwarder::addClient/getClient/eraseClient', where=FWD[0]), dict(name='ClientRecvTask::run', where=HANDLERS[1]), dict(name='AdapterManager::unicastToClient', where=FWD[3])],
     'two forwarders from the client list file, three different node ids of 0..1 bytes, two direct addresses, 3 steps after the start of the gateway (thorough: 4, node ids of 1 byte); two forwarders alone: 3 clients, 6 operations (thorough: 7)', [e2e('gw_fwd.cpp', what=0, k=3, reach=['behind', 'direct', 'moved', 'ping', 'unknown', 'end']), e2e('gw_fwd.cpp', what=0, k=4, idmin=1, tier='thorough', reach=['behind', 'direct', 'moved', 'ping', 'unknown', 'end']), dict(h='gw_unit.cpp', group='gateway', params=dict(what=9, k=6), thorough=dict(k=7), time=200, samples=2, reach=['moved', 'erased', 'end'])], FIX + ['a CONNECT with another client id from the place of a known client is outside (it is taken for that client)'])
prop('C21', 'A PUBLISH of a client reaches the broker unchanged, or is refused',
     'A PUBLISH of a connected client goes to the broker with the topic its topic id (registered, predefined for the client, predefined for all), short name or QoS -1 topic name stands for, and with exactly its payload, QoS (-1 becomes 0), DUP, RETAIN and message id. An unknown topic id is refused with PUBACK (invalid topic id) at QoS 1 and 2 and dropped otherwise; QoS 1 or 2 without message id is never passed on.',
     ['inputs'], 'all flags, topic ids, message ids, short names, topic names and payload bytes up to the bound; clean and persistent sessions',
     'no existing test sends a PUBLISH through the gateway.', HANDLERS[:5] + PUB + GWT, [dict(name='MQTTSNPublishHandler::handlePublish', where=PUB[0]), dict(name='Topics::getTopicById', where=GWT[0]), dict(name='MQTTGWPacket::setPUBLISH', where=MQ[0])],
     'payloads of 0..3 bytes (thorough: 0..12); topic names of QoS -1 messages of 0..5 bytes; two registered and two predefined topics', [e2e('gw_pub.cpp', what=0, n=3, thorough=dict(n=8), reach=['end', 'no id', 'passed on', 'refused', 'reserved', 'unknown']), e2e('gw_pub.cpp', what=2, reach=['end', 'passed on', 'refused'])], FIX)
prop('C22', 'A message from the broker reaches the client once, as it is, under a known id',
     'A PUBLISH from the broker is delivered to the connected client with its payload, QoS, DUP, RETAIN and message id: a two byte topic as short name, a topic the client knows under its topic id and kind. A topic that matches a wildcard subscription or belongs to a persistent session is first announced with REGISTER (a new, unreserved id) and delivered exactly once, after the REGACK for that REGISTER; later messages come under the same id. A topic unknown to a clean session is acknowledged to the broker and not delivered. A message that does not fit a sensor network packet is not sent and disturbs nothing.',
     ['inputs', 'histories'], 'all topics and payload bytes up to the bound, all flags and message ids, REGACKs in any order and with any message id',
     'no existing test delivers a message.', HANDLERS[:5] + PUB + GWT, [dict(name='MQTTGWPublishHandler::handlePublish', where=PUB[1]), dict(name='WaitREGACKPacketList', where=GW + 'MQTTSNGWClient.cpp'), dict(name='MQTTSNPublishHandler::handleRegAck', where=PUB[0])],
     'topic names of 1..3 bytes, any content (thorough: 1..4); payloads of 0..4, 245..250 and 1013..1017 bytes; three messages waiting for REGACK, acknowledged in all orders; one message per unregistered topic at a time',
     [e2e('gw_deliver.cpp', what=0, n=3, thorough=dict(n=4), reach=['delivered', 'not wanted', 'registered', 'end']), e2e('gw_deliver.cpp', what=1, n0=0, n1=4, reach=['delivered', 'end']), e2e('gw_deliver.cpp', what=1, n0=245, n1=250, reach=['delivered', 'end']), e2e('gw_deliver.cpp', what=1, n0=1013, n1=1017, reach=['delivered', 'too long', 'end']), e2e('gw_deliver.cpp', what=5)], FIX)
prop('C23', 'SUBSCRIBE and UNSUBSCRIBE are translated, and answered to the client that asked',
     'SUBSCRIBE with a topic name, predefined id or short name reaches the broker with that filter, QoS and message id; the broker\'s SUBACK comes back once, with the granted QoS or refusal, the message id and the topic id under which messages of that topic will come (0 for a wildcard). UNSUBSCRIBE is translated likewise and always answered. Unknown predefined ids, reserved topic types and names for which there is no room are refused without involving the broker; requests without message id are ignored.',
     ['inputs', 'histories'], 'all names up to the bound, ids, flags and message ids, all SUBACK codes, answers in any order, strays',
     'no existing test subscribes.', HANDLERS[:5] + SUB + GWT, [dict(name='MQTTSNSubscribeHandler', where=SUB[0]), dict(name='MQTTGWSubscribeHandler', where=SUB[1]), dict(name='TopicIdMap', where=GWT[0])],
     'names of 1..4 bytes without NUL (thorough: 1..6); two SUBSCRIBEs outstanding; a client with all its 50 topics in use',
     [e2e('gw_sub.cpp', what=0, n=4, thorough=dict(n=6), reach=['end', 'id', 'known name', 'message', 'new name', 'no id', 'refused', 'wildcard']), e2e('gw_sub.cpp', what=1, n=3, thorough=dict(n=4), reach=['end', 'no id', 'passed on', 'unknown']), e2e('gw_sub.cpp', what=2), e2e('gw_sub.cpp', what=3, reach=['known', 'no room', 'end'])], FIX)
prop('C24', 'CONNECT reaches the broker with the client\'s data and its whole will',
     'CONNECT goes to the broker with the client\'s id, keep alive, clean session flag and the configured protocol version and credentials. With the will flag the gateway first asks for will topic and will message, and CONNECT then carries exactly these with their QoS and retain flag; without it nothing of an earlier will remains. Messages out of this order are never taken for a will and never make CONNECT go out early. Updates of the will are answered as not supported. A client that connects from another address is served there, and only there.',
     ['inputs', 'histories'], 'all client ids, will topics and messages up to the bound, QoS, retain, durations, credentials; every order of up to k messages',
     'no existing test connects a client.', HANDLERS + CONN + MQ[:1], [dict(name='MQTTSNConnectionHandler::handleConnect/handleWilltopic/handleWillmsg', where=CONN[0]), dict(name='MQTTGWPacket::setCONNECT', where=MQ[0]), dict(name='Client::setWillTopic/setWillMsg', where=GW + 'MQTTSNGWClient.cpp')],
     'client ids of 1..3 bytes, will topics of 1..3 and messages of 0..3 bytes, without NUL; 4 messages before CONNECT goes out (thorough: 6)',
     [e2e('gw_conn.cpp', what=0, n=3, reach=['end', 'no will', 'will']), e2e('gw_conn.cpp', what=1, k=4, thorough=dict(k=6), reach=['connected', 'without will', 'end']), e2e('gw_conn.cpp', what=2, reach=['ignored', 'update', 'end']), e2e('gw_conn.cpp', what=3)], FIX, ['Client::_connectData, _willTopic, _willMsg'])
prop('C25', 'Acknowledgements of QoS 1 and 2 messages find the message they belong to',
     'Towards the broker: PUBACK comes back to the client once, with the topic id and message id of the PUBLISH it acknowledges; PUBREC, PUBREL and PUBCOMP pass with their message id. Towards the client: PUBACK (accepted), PUBREC, PUBREL and PUBCOMP pass to the broker with their message id, a rejecting PUBACK does not; a PUBREL for a sleeping client is completed by the gateway. An acknowledgement for no outstanding message is not passed on as a PUBACK of another.',
     ['inputs', 'histories'], 'all message ids, topics of all kinds, return codes, repeated and stray acknowledgements, both directions',
     'no existing test sends an acknowledgement through the gateway.', HANDLERS[:5] + PUB + GWT, [dict(name='MQTTGWPublishHandler::handlePuback/handleAck', where=PUB[1]), dict(name='MQTTSNPublishHandler::handlePuback/handleAck', where=PUB[0]), dict(name='TopicIdMap', where=GWT[0])],
     'one message at a time with a stray or a repetition, and two outstanding messages acknowledged in either order', [e2e('gw_pub.cpp', what=1, reach=['end', 'qos 1', 'qos 2']), e2e('gw_pub.cpp', what=3), e2e('gw_deliver.cpp', what=2, reach=['acknowledged', 'rejected', 'asleep', 'qos 2', 'end'])], FIX)
prop('C26', 'A sleeping client loses no message and gets them in order when it wakes up',
     'Messages for a sleeping client are kept and acknowledged to the broker; nothing is sent to it. When it sends PINGREQ it gets them all, once and in order (those of an unregistered topic after the REGACK), then PINGREQ goes to the broker (an aggregating gateway answers it itself), PINGRESP ends the delivery and the client sleeps again; when it sends CONNECT it gets CONNACK, then the messages. At least 20 messages are kept; one that cannot be kept is not acknowledged, and the number is bounded.',
     ['inputs', 'histories'], 'every sequence of messages up to the bound, of all QoS, flags, topic kinds, ids and payload bytes; every way of waking up',
     'no existing test puts a client to sleep.', HANDLERS[:6] + PUB + CONN, [dict(name='Client::setClientSleepPacket/getClientSleepPacket', where=GW + 'MQTTSNGWClient.cpp'), dict(name='MQTTSNConnectionHandler::handlePingreq/sendStoredPublish', where=CONN[0]), dict(name='MQTTGWPublishHandler::handlePublish', where=PUB[1])],
     '1..2 messages of 5 kinds (thorough: 3 of 4 kinds), one later message in a second sleep; 24 messages of one kind for the limit; aggregating gateway: 1..2 messages (thorough: 3) of 5 topics under 6 filters',
     [e2e('gw_deliver.cpp', what=3, k=2, kinds=4, reach=['asleep again', 'connected', 'registered', 'end']), e2e('gw_deliver.cpp', what=3, k=3, kinds=3, tier='thorough', reach=['asleep again', 'connected', 'registered', 'end']), e2e('gw_deliver.cpp', what=4, k=24), e2e('gw_agg.cpp', what=3, k=2, thorough=dict(k=3), reach=['delivered', 'CONNECT', 'registered', 'asleep again', 'end'])], FIX, ['queue of stored messages of every client'])
ANYST = {0: ['new client', 'answered', 'ignored', 'end'], 1: ['answered', 'ignored', 'end'], 2: ['answered', 'passed on', 'ignored', 'end'], 3: ['answered', 'passed on', 'ignored', 'usable', 'end'], 4: ['answered', 'passed on', 'ignored', 'end'], 5: ['answered', 'passed on', 'ignored', 'end'], 6: ['answered', 'ignored', 'end'], 7: ['answered', 'ignored', 'end'], 8: ['answered', 'passed on', 'ignored', 'usable', 'end']}
prop('C27', 'No datagram harms the gateway or breaks a session',
     'Whatever bytes a node sends, known or unknown, directly or through a forwarder, in any state of its session: the gateway touches no memory it should not and hangs nowhere; what it sends to the broker are well-formed MQTT packets on that client\'s connection, what it sends to nodes are well-formed MQTT-SN messages to that node (GWINFO to all for SEARCHGW); only CONNECT or DISCONNECT ends the client\'s session, which is as usable as before, and no other client notices. A node nobody knows becomes a client only with CONNECT, is answered with nothing else, and never takes the place of a client that does not connect by itself.',
     ['inputs', 'histories'], 'every datagram up to the bound, in 9 states of a session with messages in flight in both directions; transparent, aggregating and forwarding gateways and one with QoS -1 clients',
     'no existing test sends the gateway a datagram; what happens to a malformed one depends on the state of the session it hits.', HANDLERS + CONN + PUB + SUB + GWT + [GW + 'MQTTSNGWPacket.cpp'] + [PK + 'MQTTSNPacket.c'], [dict(name='ClientRecvTask::run', where=HANDLERS[1]), dict(name='PacketHandleTask::run and its handlers', where=HANDLERS[0]), dict(name='MQTTSNPacket::getXXX', where=GW + 'MQTTSNGWPacket.cpp')],
     'one datagram of 0..10 bytes (thorough: 0..14, and 15..18 to an active client) in each state, 0..8 on the other kinds of gateway; two datagrams of 0..7 bytes to an unknown node, 0..4 to an active client (thorough: 8 and 5); CONNECT of 14..21 bytes with the ids of the adapters',
     [e2e('gw_any.cpp', st=st, n=10, thorough=dict(n=14), reach=r) for st, r in ANYST.items()] + [e2e('gw_any.cpp', st=3, n0=15, n=18, tier='thorough')] +
     [e2e('gw_any.cpp', agg=1, st=st, n=8, thorough=dict(n=11)) for st in (0, 1, 3, 4, 6, 7)] + [e2e('gw_any.cpp', fwd=1, st=st, n=8, thorough=dict(n=11)) for st in (0, 1, 3, 4, 7)] + [e2e('gw_any.cpp', qm1=1, st=st, n=8, thorough=dict(n=11)) for st in (0, 3)] +
     [e2e('gw_any.cpp', st=0, k=2, n=7, thorough=dict(n=8), reach=ANYST[0]), e2e('gw_any.cpp', st=3, k=2, n=4, thorough=dict(n=5), reach=ANYST[3]), e2e('gw_any.cpp', st=7, k=2, n=5, thorough=dict(n=6)),
      e2e('gw_any.cpp', qm1=1, st=0, n0=14, n=14, t0=4, t1=4), e2e('gw_any.cpp', agg=1, st=0, n0=18, n=21, t0=4, t1=4)], FIX + ['the broker side is quiet while the datagram is processed', 'PUBLISH topics with wildcards, DUP with QoS 0 and the like, which the client is to blame for, are not held against the gateway'])
prop('C28', 'Nothing the broker sends harms the gateway or a client',
     'Whatever bytes the broker sends on a client\'s connection, in any state of the session, split or cut off anywhere: the gateway touches no memory it should not and hangs nowhere; what it sends to the client are well-formed MQTT-SN messages, to that client only; what it answers are well-formed MQTT packets on that connection; every other client is served as before.',
     ['inputs', 'histories', 'fault_sequences'], 'every byte sequence up to the bound (packets, several packets, fragments), followed by nothing or by the end of the connection, in 7 states of a session',
     'no existing test feeds the gateway from a broker.', HANDLERS + [PUB[1], SUB[1]] + MQ[:1] + CONN, [dict(name='MQTTGWPacket::recv, getPUBLISH and the like', where=MQ[0]), dict(name='BrokerRecvTask::run', where=GW + 'MQTTSNGWBrokerRecvTask.cpp'), dict(name='MQTTGWPublishHandler::handlePublish', where=PUB[1])],
     'up to 6 bytes (thorough: 7), 0..11 bytes for one packet other than PUBLISH, 0..9 (thorough: 10) for one PUBLISH; remaining lengths beyond the bound are outside',
     [e2e('gw_any.cpp', what=1, st=st, n=6, thorough=dict(n=7)) for st in (1, 2, 3, 4, 5, 7, 8)] + [e2e('gw_any.cpp', what=1, agg=1, st=st, n=6, thorough=dict(n=7)) for st in (3, 4)] + [e2e('gw_any.cpp', what=1, fwd=1, st=3, n=5, thorough=dict(n=6))] +
     [e2e('gw_any.cpp', what=1, st=st, n0=2, n=11, one=1, t0=64, t1=255) for st in (2, 3, 5)] + [e2e('gw_any.cpp', what=1, st=st, n0=2, n=9, one=1, t0=48, t1=63, thorough=dict(n=10)) for st in (3, 4, 5)] + [e2e('gw_any.cpp', what=1, agg=1, st=3, n0=2, n=8, one=1, t0=48, t1=63, thorough=dict(n=9))], FIX)
prop('C29', 'Clients are kept apart from each other',
     'Whatever two clients do at the same time, with the same message ids and topic ids in use by both, every message, acknowledgement and answer goes to the client or broker connection it belongs to and to no other, and nothing one client does changes the session, the topics or the broker connection of the other.',
     ['histories', 'inputs'], 'every interleaving of up to k steps of two clients, 7 kinds of step; payload bytes symbolic',
     'no existing test has two clients.', HANDLERS + PUB + SUB + CONN, [dict(name='Event::setClientRecvEvent/setBrokerSendEvent', where=GW + 'MQTTSNGateway.cpp'), dict(name='ClientList::getClient', where=GW + 'MQTTSNGWClientList.cpp')],
     'two clients, one the beginning of the other\'s client id; 3 steps with a probe of the other client after each', [e2e('gw_multi.cpp', k=3, reach=['again', 'puback', 'suback', 'end'])], FIX)
AGG = [GW + f for f in ('MQTTSNGWAggregater.cpp', 'MQTTSNGWAggregateTopicTable.cpp', 'MQTTSNGWMessageIdTable.cpp', 'MQTTSNAggregateConnectionHandler.cpp', 'MQTTSNGWAdapter.cpp', 'MQTTSNGWAdapterManager.cpp', 'MQTTSNGWProxy.cpp')]
prop('C30', 'The aggregating gateway serves all clients over one broker connection',
     'An aggregating gateway keeps one connection to the broker, connecting again when it is lost, and clients joining, leaving or sleeping are not noticed there. Each message of a client reaches the broker once under an id no other message in flight has, and its answers come back to that client with its own message id. A message of the broker reaches once each client with a matching subscription, and nobody else, and is acknowledged exactly once. A filter is unsubscribed at the broker when its last client leaves it; one the broker refuses is none of the client\'s.',
     ['histories', 'inputs'], 'every sequence of steps up to the bound, all message ids, payload bytes, filters and topics of a set with wildcards, short and ordinary names',
     'no existing test runs the aggregater.', HANDLERS[:4] + AGG, [dict(name='Aggregater::addMessageIdTable/convertClient', where=AGG[0]), dict(name='AggregateTopicTable', where=AGG[1]), dict(name='MQTTSNAggregateConnectionHandler', where=AGG[3]), dict(name='BrokerRecvTask/PacketHandleTask aggregate branches', where=HANDLERS[0])],
     'connection: 6 steps, 2 clients; PUBLISH: 2 messages of 2 clients with 2 symbolic ids (thorough: 3); subscriptions, accepted or refused: 2 steps over 6 filters, 3 steps over 2 filters (thorough: 3), 3 clients, then a message of one of 5 topics; sleeping client; QoS 2 exchange; the table of filters and clients alone: 5 operations (thorough: 6), 3 filters, 3 clients',
     [e2e('gw_agg.cpp', what=0, k=6, reach=['connects', 'closed', 'left', 'ping', 'end']), e2e('gw_agg.cpp', what=1, k=2, thorough=dict(k=3)), e2e('gw_agg.cpp', what=2, filters=6, k=2, reach=['clean', 'last', 'refused', 'end']),
      e2e('gw_agg.cpp', what=2, filters=2, k=3, qos=0, thorough=dict(filters=3), reach=['clean', 'last', 'not last', 'refused', 'end']), e2e('gw_agg.cpp', what=3, k=1, reach=['delivered', 'CONNECT', 'asleep again', 'end']), e2e('gw_agg.cpp', what=4), dict(h='gw_unit.cpp', group='gateway', params=dict(what=8, k=5), thorough=dict(k=6), time=200, samples=2, reach=['again', 'client gone', 'erased', 'end'])], FIX)
prop('C31', 'A client may publish with QoS -1 without connecting',
     'A client listed for QoS -1 may publish without connecting: while the gateway\'s own broker connection for such clients is up, each of its PUBLISH messages with QoS -1 reaches the broker exactly once, with QoS 0, its topic, payload and retain flag. Everything else it sends, and such a message of a client not listed, is discarded. The gateway connects at start and again when the connection is lost, refused or unanswered; it pings when idle, repeats an unanswered ping, then gives up and reconnects. Connected clients are not disturbed.',
     ['histories', 'inputs'], 'every history of the connection up to the bound with every passage of time; every topic, payload and datagram up to the bounds',
     'no existing test has a QoS -1 client.', HANDLERS[:5] + PUB[:1] + [GW + f for f in ('MQTTSNGWQoSm1Proxy.cpp', 'MQTTSNGWAdapter.cpp', 'MQTTSNGWAdapterManager.cpp')], [dict(name='Proxy::checkConnection/recv', where=GW + 'MQTTSNGWAdapter.cpp'), dict(name='ClientRecvTask::run', where=HANDLERS[1]), dict(name='MQTTSNPublishHandler::handlePublish', where=PUB[0])],
     'connection: 4 steps with any passage of 1..1000 s each, 6 steps (thorough: 7) with passages of 3, 11 and 901 s; topic names of 1..3 bytes, payloads of 0..3 bytes; datagrams of 0..8 bytes (thorough: 0..12); transparent and aggregating gateway',
     [e2e('gw_qosm1.cpp', what=0, k=4, reach=['closed', 'connects again', 'pings', 'pings again', 'answered', 'publish', 'refused', 'end'], time=300), e2e('gw_qosm1.cpp', what=0, k=4, pick=1, begin=1, thorough=dict(k=6), reach=['end']), e2e('gw_qosm1.cpp', what=0, k=4, pick=1, begin=2, thorough=dict(k=6), reach=['end']), e2e('gw_qosm1.cpp', what=0, k=6, pick=1, thorough=dict(k=7), reach=['closed', 'connects again', 'pings', 'pings again', 'answered', 'gives up', 'publish', 'refused', 'end']),
      e2e('gw_qosm1.cpp', what=1, reach=['name', 'end'], thorough=dict(n=6, pn=6)), e2e('gw_qosm1.cpp', what=1, agg=1, reach=['name', 'end']), e2e('gw_qosm1.cpp', what=2, thorough=dict(n=12)), e2e('gw_qosm1.cpp', what=2, agg=1)], FIX + ['a PUBLISH sent while the connection is down is lost: QoS -1 promises no more'])
prop('C32', 'REGISTER gives a client one topic id per name, valid for its session',
     'REGISTER of a connected client is answered with REGACK carrying its message id and a topic id that is not reserved and not that of another name; the same name gets the same id again; a client without room gets a refusal. A PUBLISH with the id is published under the name. Ids survive a reconnect of a persistent session and are forgotten by a clean one; predefined ids and those of other clients are not touched.',
     ['inputs', 'histories'], 'all names up to the bound, topic and message ids, session states, ways of ending the connection',
     'testPFW exercises Topics alone with fixed names.', HANDLERS[:6] + PUB + GWT, [dict(name='MQTTSNPublishHandler::handleRegister', where=PUB[0]), dict(name='Topics::add/eraseNormal', where=GWT[0])],
     'names of 1..3 bytes without wildcards (thorough: 1..4)', [e2e('gw_misc.cpp', what=2, n=3, thorough=dict(n=4), reach=['asleep', 'used', 'end']), e2e('gw_misc.cpp', what=3, reach=['forgotten', 'kept', 'end']), e2e('gw_sub.cpp', what=3, reach=['known', 'no room', 'end'])], FIX)
prop('C37', 'The gateway announces itself',
     'SEARCHGW is answered with a broadcast GWINFO carrying the gateway\'s id, whoever asks and whatever its session; ADVERTISE is broadcast with gateway id and period once per configured period; neither disturbs a session, and ADVERTISE and GWINFO of other gateways are ignored.',
     ['inputs', 'histories'], 'every gateway id, radius, period and passage of time between two looks at the timer',
     'no existing test looks at broadcasts.', HANDLERS[:3] + CONN + [GW + 'linux/Timer.cpp'], [dict(name='MQTTSNConnectionHandler::sendADVERTISE/handleSearchgw', where=CONN[0]), dict(name='PacketHandleTask::run', where=HANDLERS[0]), dict(name='Timer::isTimeup', where=GW + 'linux/Timer.cpp')],
     'periods of 1..65535 s; 3 looks at the timer 1..30000 s apart, all values (thorough: 4, 1..60000 s), except exactly at the end of a period', [e2e('gw_misc.cpp', what=0, reach=['GWINFO', 'end']), e2e('gw_misc.cpp', what=1, ticks=3, max=30000, thorough=dict(ticks=4, max=60000), time=300, reach=['ADVERTISE', 'end'])], FIX)
UNIT = [FIX[0]]
def unit(what, reach, **kw):
    return e2e('gw_unit.cpp', what=what, reach=reach, **kw)


def ts(h, what, reach, **kw):
    j = dict(h=h, group=kw.pop('group', 'tester'), params=dict(what=what), reach=reach, time=200, samples=4)
    for k in ('thorough', 'tier', 'time'):
        if k in kw:
            j[k] = kw.pop(k)
    j['params'].update(kw)
    return j


prop('C13', 'Message ids of aggregated clients map to one client and message and back',
     'Each message of an aggregated client gets an id at the broker which no other message in flight has, the same one when it is repeated; an answer with that id yields exactly the client and message id it was given for, once; an id not in use yields nothing and changes nothing. When the table is full a message gets no id instead of the id of another; room that becomes free is used again.',
     ['inputs', 'histories'], 'every sequence of additions, answers, look-ups and removals up to the bound, with every message id and every id the generator may yield',
     'no existing test uses the table; two messages share an id only after particular sequences.', [GW + f for f in ('MQTTSNGWMessageIdTable.cpp', 'MQTTSNGWMessageIdTable.h', 'MQTTSNGWAggregater.cpp')], [dict(name='MessageIdTable::add/getClientMsgId/getMsgId/erase', where=GW + 'MQTTSNGWMessageIdTable.cpp'), dict(name='Aggregater::addMessageIdTable/convertClient/findClient', where=GW + 'MQTTSNGWAggregater.cpp')],
     '2 clients; 4 operations (thorough: 5) with symbolic ids, 6 (thorough: 7) with 2 message ids; the full table (500 messages) with one answer and ids running over 65535', [unit(0, ['again', 'answered', 'looked up', 'new', 'stray', 'end'], k=4, thorough=dict(k=5)), unit(0, ['again', 'answered', 'new', 'stray', 'end'], deep=2, k=6, thorough=dict(k=7)), unit(1, ['end'])], UNIT, ['MessageIdTable'])
prop('C14', 'Queues of the gateway keep order, bound and ownership of what is in them',
     'What is put into a queue of events or packets comes out first in, first out, each exactly once; a queue with a limit holds that many and refuses more, without limit it refuses nothing; an empty queue yields nothing, a timed wait on it a time-out event; null is not put in. What is refused, cleared or left when the queue goes is freed exactly once.',
     ['histories'], 'every sequence of operations up to the bound on queues of every limit 0..3',
     'TestQue drains one queue of fixed content; nothing tests limits or EventQue and PacketQue.', [GW + f for f in ('MQTTSNGWProcess.h', 'MQTTSNGWClient.h', 'MQTTSNGateway.cpp')], [dict(name='Que', where=GW + 'MQTTSNGWProcess.h'), dict(name='PacketQue', where=GW + 'MQTTSNGWClient.h'), dict(name='EventQue', where=GW + 'MQTTSNGateway.cpp')],
     '6 operations on Que, 5 on PacketQue and EventQue (thorough: 8, 7, 7), limits 0 (none) to 3', [unit(2, ['empty', 'end', 'full', 'posted'], k=6, thorough=dict(k=8)), unit(3, ['cleared', 'end', 'full', 'posted'], k=5, thorough=dict(k=7)), unit(4, ['end', 'full', 'posted', 'timeout', 'waited'], k=5, thorough=dict(k=7))], UNIT, ['Que', 'PacketQue', 'EventQue'])
prop('C17', 'Messages waiting for REGACK are kept and found by their id only',
     'A message that waits for the REGACK of its topic is found under the id of the REGISTER it waits for, and under no other; releasing one keeps the others, in any order, and releasing an id nobody waits for changes nothing. The count is exact, and what still waits when the client goes is freed.',
     ['inputs', 'histories'], 'every sequence of operations up to the bound with every message id',
     'no existing test uses the list.', [GW + 'MQTTSNGWClient.cpp'], [dict(name='WaitREGACKPacketList', where=GW + 'MQTTSNGWClient.cpp')],
     '6 operations (thorough: 7), distinct ids; fewer than 256 messages', [unit(5, ['end', 'released', 'stray', 'waits'], k=6, thorough=dict(k=7))], UNIT, ['WaitREGACKPacketList'])
prop('C18', 'Message ids the gateway makes are valid and do not repeat early',
     'The ids the gateway makes for messages to a client and to the broker are never 0, the ones to the broker never 65535, and no id comes again before all others have been used.',
     ['inputs', 'histories'], 'every state of the generators',
     'a repetition shows only after 255 or 65534 messages.', [GW + 'MQTTSNGWClient.cpp'], [dict(name='Client::getNextPacketId/getNextSnMsgId', where=GW + 'MQTTSNGWClient.cpp')],
     '3 ids (thorough: 6) from every state; with each the next one in the cycle this covers every period', [unit(6, ['end'], k=3, thorough=dict(k=6))], UNIT, ['Client::_packetId, _snMsgId'])
prop('C34', 'A timer is up when its time has passed, not before',
     'A timer that was started for a time is not up before that time has passed and is up from then on until started or stopped; asked about another time it answers for that; one that was never started or was stopped is not up. The same holds for the timer of the tester\'s client library, which also says how much of its time is left.',
     ['inputs', 'schedules'], 'all start times up to 2^32 s after the epoch, all periods of 0..2^32-1 ms and all passages of 0..2^32 s, to 1 ms',
     'TestProcess measures two fixed periods; seconds, milliseconds and periods beyond 2^31 are never mixed.', [GW + 'MQTTSNGWProcess.h', GW + 'linux/Timer.cpp', GW + 'linux/Timer.h'], [dict(name='Timer::start/isTimeup/stop', where=GW + 'linux/Timer.cpp'), dict(name='LTimer::start/isTimeUp/getRemain/stop', where='MQTTSNGateway/GatewayTester/src/LTimer.cpp')],
     'one look at the timer at any time after its start, exact to 1 ms; the clock does not go backwards and shows whole milliseconds; of the tester\'s client library the timer over one such look, and the time that is left within 36 hours', [unit(7, ['up', 'not up', 'end'], k=1), ts('ts_timer.cpp', 0, ['up', 'not up', 'end'], k=1), ts('ts_timer.cpp', 0, ['remains', 'end'], k=1, rem=1)], UNIT, ['Timer'])
prop('C40', 'Events pass between tasks without loss, repetition, deadlock or data race',
     'Whatever the interleaving of the tasks, an event one task puts into a queue is taken from it exactly once, events of one task in their order; a task that waits wakes up when there is an event; the limit of the queue holds; no task waits for ever while there are events, and no two tasks touch the same memory at the same time without a lock.',
     ['schedules', 'histories'], 'every interleaving of the posting tasks and the waiting task with up to k preemptions, at every lock and semaphore operation; every place where a timed wait may expire',
     'no existing test posts from a second task, and a test sees one schedule of many.', [GW + 'MQTTSNGateway.cpp', GW + 'MQTTSNGWProcess.h', GW + 'linux/Threading.cpp'], [dict(name='EventQue::post/wait/timedwait', where=GW + 'MQTTSNGateway.cpp'), dict(name='Mutex, Semaphore', where=GW + 'linux/Threading.cpp')],
     '1 waiting task with 2 posting ones of 1 event (4 preemptions; thorough: 5), 2 of 2 events or 3 of 1 event (2 preemptions; thorough: 3 to 4); several tasks waiting on one queue do not occur in the gateway',
     [e2e('gw_thr.cpp', what=0, p=2, n=1, switches=4, races=1, thorough_switches=5), e2e('gw_thr.cpp', what=0, p=2, n=2, switches=2, races=1, thorough_switches=4), e2e('gw_thr.cpp', what=1, p=2, n=1, switches=3, races=1, thorough_switches=4, reach=['timeout', 'end']), e2e('gw_thr.cpp', what=1, p=2, n=2, switches=2, races=1, thorough_switches=3, reach=['timeout', 'end']),
      e2e('gw_thr.cpp', what=0, p=3, n=1, switches=2, races=1, thorough_switches=3), e2e('gw_thr.cpp', what=2, max=1, p=2, n=1, switches=3, races=1), e2e('gw_thr.cpp', what=2, max=2, p=3, n=1, switches=2, races=1, thorough_switches=3)],
     ['locks and semaphores behave as POSIX says; a timed wait may expire whenever nothing is there; tasks are preempted only at lock and semaphore operations, which decides everything for code without data races, and data races are reported', FIX[0]], ['EventQue'])
TLSN = [GW + 'linux/Network.cpp', GW + 'linux/Network.h']
TLSA = ['the TLS library and the sockets are stand-ins which count what they hand out, check every use and may refuse or fail at any call; what is verified is what the gateway makes of their answers', FIX[0]]
prop('C38', 'TLS to the broker: verified broker only, nothing in clear, nothing left behind',
     'A connection marked secure is usable only after a handshake, a valid certificate chain to the configured CAs and a certificate whose name is that of the configured host (or a wildcard for it); otherwise it is refused, and not a byte is sent over it or in the clear. A client certificate, if configured, is used. After any failure the next attempt is as good as the first. A closed or lost connection frees what it used, once, and disturbs no other one.',
     ['fault_sequences', 'inputs', 'histories'], 'every failing step, all host names and certificate names up to the bound (any byte), every history of two connections up to the bound',
     'no existing test opens a TLS connection; the failures need a broker that is not what it should be.', TLSN, [dict(name='Network::connect/close/isValid', where=TLSN[0]), dict(name='TCPStack::connect/close', where=TLSN[0])],
     'host names of 1..4 and certificate names of 0..5 bytes or none (thorough: 6 and 7), one failing step of 11, with and without client certificate; 2 connections with 4 operations (thorough: 5)',
     [e2e('gw_tls.cpp', what=0, hl=4, c=5, reach=['connected', 'refused', 'second attempt', 'end'], thorough=dict(hl=6, c=7)), e2e('gw_tls.cpp', what=0, hl=4, c=5, cert=0, reach=['connected', 'refused', 'second attempt', 'end']), e2e('gw_tls.cpp', what=1, k=4, thorough=dict(k=5), reach=['connected', 'refused', 'lost', 'closed', 'end'])], TLSA + ['only the common name of the certificate is looked at, as the gateway does (no alternative names)'])
prop('C39', 'Over the broker connection a packet goes out whole and comes in at once',
     'A packet for the broker goes out whole, in order, once, however the connection takes it in pieces; if it cannot, this is reported. Messages of the broker that arrive together, also inside one TLS record, are all delivered without waiting for more. One task sending while another receives disturbs neither, breaks no connection and loses nothing.',
     ['fault_sequences', 'schedules', 'inputs'], 'every way in which the connection takes or refuses pieces, every content, every interleaving of the sending and the receiving task up to the bound',
     'no existing test uses the network layer; short writes, one record with several messages and simultaneous use depend on timing.', TLSN + [GW + f for f in ('MQTTGWPacket.cpp', 'MQTTSNGWBrokerSendTask.cpp', 'MQTTSNGWBrokerRecvTask.cpp')], [dict(name='Network::send/recv/isValid/hasPendingData', where=TLSN[0]), dict(name='TCPStack::send', where=TLSN[0]), dict(name='BrokerRecvTask::run', where=GW + 'MQTTSNGWBrokerRecvTask.cpp')],
     'packets of 1..5 bytes taken in up to 5 pieces, with errors and interruptions (thorough: 6 and 7), plain and TLS; 1..3 messages in one record (thorough: 4); a sending and a receiving task with 3 preemptions (thorough: 4) at every call of the TLS library, lock and semaphore',
     [e2e('gw_tls.cpp', what=2, tls=0, n=5, k=5, reach=['sent', 'failed', 'end'], thorough=dict(n=6, k=7)), e2e('gw_tls.cpp', what=2, tls=1, n=5, k=5, reach=['sent', 'failed', 'end'], thorough=dict(n=6, k=7)), e2e('gw_tlsgw.cpp', k=3, thorough=dict(k=4), reach=['end']), e2e('gw_tlsthr.cpp', switches=3, thorough_switches=4, reach=['end'])], TLSA)
CONF = [GW + f for f in ('MQTTSNGateway.cpp', 'MQTTSNGWProcess.cpp', 'MQTTSNGWClientList.cpp', 'MQTTSNGWAdapterManager.cpp')]
prop('C33', 'The gateway is configured as its files say',
     'Each setting has exactly the value its file gives it, whatever comments, blanks, line ends and other lines surround it, and its default if it is not given; the switches switch what they name; a gateway id outside 1 to 255 is refused. The listed clients, up to the limit, are known under their id and address, with their flags; predefined topics are known under their id to the client they are listed for, or to all; lines that make no sense are skipped and harm nothing.',
     ['inputs'], 'every file content up to the bound for one key; every value up to the bound of each of 24 settings; every combination of lines with symbolic ids and topics in the lists',
     'no existing test reads a configuration; what harms is a particular line, such as one without \'=\' or without end.', CONF, [dict(name='Process::getParam', where=CONF[1]), dict(name='Gateway::initialize', where=CONF[0]), dict(name='ClientList::setClientList/setPredefinedTopics/readPredefinedList', where=CONF[2])],
     'files of 0..6 bytes (thorough: 0..9) for one key; texts of 1..3 bytes, numbers of 1..3 digits, switches in 7 spellings; client list and predefined topics of 2 lines (ids of 1..2 bytes, topics of 1..3 bytes, 5 topic ids, 6 and 9 kinds of wrong lines)',
     [e2e('gw_conf.cpp', what=0, n=6, thorough=dict(n=9), reach=['found', 'not found', 'end']), e2e('gw_conf.cpp', what=0, n=6, two=1, thorough=dict(n=9), reach=['found', 'not found', 'end']), e2e('gw_conf.cpp', what=1, g=0, reach=['end']), e2e('gw_conf.cpp', what=1, g=1, reach=['refused', 'end']), e2e('gw_conf.cpp', what=1, g=2, reach=['end']),
      e2e('gw_conf.cpp', what=2, k=2, reach=['client', 'full', 'end'], time=400), e2e('gw_conf.cpp', what=2, k=2, type=1, reach=['client', 'full', 'end'], time=400), e2e('gw_conf.cpp', what=3, k=2, reach=['for all', 'for one', 'end'], time=400), e2e('gw_conf.cpp', what=3, k=2, type=1, reach=['for all', 'for one', 'end'], time=400)],
     ['lines of at most 126 bytes', FIX[0]])

prop('C15', 'Every node is served as the client it is, within the limit and the list',
     'A CONNECT opens the session of exactly its client id, whatever ids are the beginning of others and wherever the client or another one was before; from then on the node is that client and no other: what it sends goes to the broker as that client, what comes for the client goes to it and to nobody else. No more clients than MaxNumberOfClients are served, one too many is rejected without harm to the others. With ClientAuthentication only listed clients are served.',
     ['histories', 'inputs'], 'every history of connects, messages and disconnects of nodes and clients up to the bound, with all client ids up to the bound; every limit; lists with all ids up to the bound',
     'no existing test connects a client; a mix-up needs ids or addresses which are related.', [GW + f for f in ('MQTTSNGWClientRecvTask.cpp', 'MQTTSNGWClientList.cpp', 'MQTTSNGWClient.cpp', 'MQTTSNGWConnectionHandler.cpp')], [dict(name='ClientRecvTask::run/isClientOf', where=GW + 'MQTTSNGWClientRecvTask.cpp'), dict(name='ClientList::getClient/createClient/createList, ClientsPool', where=GW + 'MQTTSNGWClientList.cpp')],
     '3 nodes, 3 clients with ids of 1..2 bytes (all but NUL), limits 1..3, 4 steps (thorough: 5 with 2 clients); a list of 2 clients with ids of 1..2 letters, a third with an id of 1..3, one CONNECT from one of 3 nodes and a message from one',
     [e2e('gw_clients.cpp', what=0, k=4, reach=['delivered', 'full', 'moved', 'nowhere', 'other client', 'ping', 'end'], time=400), e2e('gw_clients.cpp', what=0, k=3, len=3, cl=1, ids=2, reach=['delivered', 'full', 'moved', 'nowhere', 'other client', 'ping', 'end'], thorough=dict(k=5, len=2, cl=0)), e2e('gw_clients.cpp', what=1, k=1, reach=['listed', 'not listed', 'elsewhere', 'end'])],
     FIX + ['a CONNECT of a listed client from another node than the listed one is only required not to be answered there'], ['ClientList', 'address of every client'])
NETA = ['the sockets are stand-ins which record what is opened, set, bound, sent, and may fail at any call', FIX[0]]
UDPF = [GW + 'linux/udp/SensorNetwork.cpp', GW + 'linux/udp6/SensorNetwork.cpp']
def net(g, h, what, reach, **kw):
    return e2e(h, group='net-' + g, what=what, reach=reach, **kw)


prop('C36', 'UDP carries datagrams whole, between exactly the right addresses',
     'Over UDP (IPv4 and IPv6) a datagram is received as it was sent, once, with the address of its sender, on the port of the gateway or from the multicast group; one sent to a client goes as it is to its address from the port of the gateway, a broadcast to the configured group with the configured range. Addresses match exactly when they are the same; a text is taken for an address exactly when it is one. A network that cannot be opened completely is refused and leaves no socket open.',
     ['inputs', 'fault_sequences'], 'every payload up to the bound, all addresses and ports, every failing system call, every combination of what is ready to be received',
     'no existing test opens a socket of the gateway.', UDPF, [dict(name='UDPPort::open/unicast/broadcast/recv', where=UDPF[0]), dict(name='UDPPort6::open/unicast/broadcast/recv', where=UDPF[1]), dict(name='SensorNetAddress::setAddress/isMatch', where=UDPF[0])],
     'datagrams of 0..4 bytes, at most one waiting on each of the two sockets, each failing call alone; texts of addresses with one octet of 1..3 symbolic digits and a port of 1..5 (IPv6: 2..5 symbolic characters in brackets)',
     [net('udp', 'net_udp.cpp', 0, ['open', 'failed', 'end']), net('udp', 'net_udp.cpp', 1, ['end']), net('udp', 'net_udp.cpp', 2, ['received', 'end']), net('udp', 'net_udp.cpp', 3, ['match', 'address', 'no address', 'end']),
      net('udp6', 'net_udp6.cpp', 0, ['open', 'failed', 'end']), net('udp6', 'net_udp6.cpp', 1, ['end']), net('udp6', 'net_udp6.cpp', 2, ['received', 'end']), net('udp6', 'net_udp6.cpp', 3, ['match', 'address', 'no address', 'end'])], NETA)
RAD = [GW + 'linux/xbee/SensorNetwork.cpp', GW + 'linux/loralink/SensorNetwork.cpp']
SER = ['the serial ports are stand-ins: what is written is recorded, what arrives comes in pieces with a pause behind each', FIX[0]]
prop('C35', 'Radio modules carry packets whole, in exact frames, and only valid ones',
     'Over XBee (API modes 1 and 2) and LoRaLink a packet of any size goes out as exactly one frame of the module: start, length, addresses, payload, checksum, escapes. It is taken for delivered exactly when the module confirms that very frame. Of whatever arrives, exactly the payload of each valid frame for the gateway is received, with its sender; a frame that is broken, interrupted, too short or too long is dropped and harms neither memory nor the next frame. A listed address is exactly the node it names.',
     ['inputs', 'fault_sequences'], 'every payload and address up to the bound, every byte stream up to the bound, every interruption of a frame, every answer of the module',
     'no existing test touches the radio modules, whose frames break only for some lengths and bytes.', RAD, [dict(name='XBee::send/recv/readApiFrame', where=RAD[0]), dict(name='LoRaLink::send/recv/readApiFrame', where=RAD[1]), dict(name='SensorNetAddress::setAddress/isMatch', where=RAD[0])],
     'payloads of 0..3 bytes and around 114, 244, 256 and 1024 (of these the ends symbolic); any stream of 0..7 bytes; streams of a packet frame of 5..20 (LoRaLink 8..15) bytes with any contents behind the header; address bytes free of escapes in the streams',
     [net('xbee', 'net_xbee.cpp', 0, ['answered', 'end'], n1=2), net('xbee', 'net_xbee.cpp', 0, ['answered', 'end'], n1=3, mode=1), net('xbee', 'net_xbee.cpp', 0, ['end'], n0=240, n1=244), net('xbee', 'net_xbee.cpp', 0, ['end'], n0=1020, n1=1024), net('xbee', 'net_xbee.cpp', 1, ['end']),
      net('xbee', 'net_xbee.cpp', 2, ['no packet', 'end'], n1=7, thorough=dict(n1=9)), net('xbee', 'net_xbee.cpp', 2, ['packet', 'no packet', 'end'], n0=5, n1=20, type=144), net('xbee', 'net_xbee.cpp', 2, ['packet', 'no packet', 'end'], n0=5, n1=20, type=144, mode=1), net('xbee', 'net_xbee.cpp', 2, ['no packet', 'end'], n0=5, n1=10, type=139),
      net('xbee', 'net_xbee.cpp', 3, ['interrupted', 'end'], n0=0, n1=3, cut=1), net('xbee', 'net_xbee.cpp', 3, ['end'], n0=110, n1=114), net('xbee', 'net_xbee.cpp', 3, ['end'], n0=242, n1=245), net('xbee', 'net_xbee.cpp', 3, ['too long', 'end'], n0=1023, n1=1026), net('xbee', 'net_xbee.cpp', 4, ['address', 'no address', 'end']),
      net('loralink', 'net_lora.cpp', 0, ['answered', 'end'], n1=3), net('loralink', 'net_lora.cpp', 0, ['answered', 'end'], n0=253, n1=258), net('loralink', 'net_lora.cpp', 2, ['no packet', 'end'], n1=7, thorough=dict(n1=8)), net('loralink', 'net_lora.cpp', 2, ['packet', 'no packet', 'end'], n0=8, n1=14, type=64, thorough=dict(n1=16)),
      net('loralink', 'net_lora.cpp', 3, ['lost', 'end'], n0=0, n1=3, cut=1), net('loralink', 'net_lora.cpp', 3, ['end'], n0=0, n1=8), net('loralink', 'net_lora.cpp', 3, ['too long', 'end'], n0=253, n1=258), net('loralink', 'net_lora.cpp', 4, ['no address', 'end'])], SER)
BT = [GW + 'linux/rfcomm/SensorNetwork.cpp']
prop('C06', 'Over Bluetooth each packet comes from and goes to the right device',
     'Over RFCOMM every packet a device sends is received once, as it is, under the address of that device, whatever others send or do at the same time. A packet for a device goes to that device if it is connected and to nobody otherwise; a broadcast goes to every connected device once. A device that leaves frees its channel for the next one and never harms the gateway. All channels that can be opened are served; a network with none is refused; only addresses with a channel from 1 to 30, or any, are accepted.',
     ['histories', 'inputs', 'fault_sequences'], 'every history of devices connecting, sending, leaving and being sent to, up to the bound; every failing system call',
     'no existing test opens an RFCOMM network; packets mix up only with two devices.', BT, [dict(name='SensorNetwork::read/unicast/broadcast/initialize', where=BT[0]), dict(name='RfcommPort::open/accept/recv/send', where=BT[0]), dict(name='SensorNetAddress::setAddress', where=BT[0])],
     '3 steps (thorough: 4) of 2 devices on 3 of the 30 channels, packets of 1..3 bytes; each failing call of opening alone, and all of a kind; channels of 1..3 digits, one character of the address symbolic',
     [net('rfcomm', 'net_rfcomm.cpp', 0, ['refused', 'end']), net('rfcomm', 'net_rfcomm.cpp', 2, ['end']), net('rfcomm', 'net_rfcomm.cpp', 1, ['connected', 'gone', 'sent', 'not sent', 'several', 'end'], k=3, thorough=dict(k=4)), net('rfcomm', 'net_rfcomm.cpp', 3, ['address', 'no address', 'end'])],
     ['the sockets are stand-ins; a packet is taken to arrive in one piece, as RFCOMM does for packets within its MTU', FIX[0]])
PR = [GW + 'MQTTSNGWProcess.cpp']
prop('C41', 'The gateway uses the configuration it is given and runs until asked to stop',
     'With -f the given file is the configuration, and the other files are looked for in its directory; without it the default one is. The gateway runs until it is asked to stop by SIGINT or SIGTERM, then stops, whatever other signals come before, between or after; a broken connection (SIGPIPE) or a hangup does not end it.',
     ['inputs', 'histories'], 'every file name up to the bound; every sequence of signals up to the bound, at every moment between two looks for signals',
     'the existing tests give the gateway no options and send it no signals; a lost signal needs two of them close together.', PR, [dict(name='Process::initialize', where=PR[0]), dict(name='signalHandler, Process::checkSignal, MultiTaskProcess::run', where=PR[0])],
     'file names of 1..6 (thorough: 8) characters, all values; up to 4 (thorough: 6) signals out of SIGINT, SIGTERM, SIGHUP, SIGPIPE, up to two within one second',
     [e2e('gw_proc.cpp', what=0, n=6, reach=['file', 'path', 'end'], thorough=dict(n=8)), e2e('gw_proc.cpp', what=1, k=4, reach=['stopped', 'runs on', 'several', 'end'], thorough=dict(k=6))],
     ['signals arrive while the process sleeps between two looks for them, which is nearly always', FIX[0]])
TS = 'MQTTSNGateway/GatewayTester/src/'


prop('C42', 'What is put into a payload comes out of it, and is MessagePack',
     'The payload class of the client library: whatever truth values, numbers, strings and array sizes are put in, each comes back as it was, in its place, as often as it is asked for, also at the receiver. The bytes are MessagePack of these values. An element without room is refused and changes nothing; one with room is not refused. Of a payload anybody else made, each element of these types is read as MessagePack says, nothing outside its bytes is read, and where no element is there is none.',
     ['inputs'], 'every sequence of elements up to the bound with all values, and every byte string up to the bound',
     'no existing test uses the class; values go wrong only in some ranges.', [TS + 'Payload.cpp', TS + 'Util.cpp'], [dict(name='Payload::set_*', where=TS + 'Payload.cpp'), dict(name='Payload::get_*, getBufferPos', where=TS + 'Payload.cpp')],
     '2 elements of any kind and value, strings of 0, 1, 15, 16, 31, 32, 255, 256 and 300 bytes; 3 elements with strings up to 16 bytes in 20 bytes (thorough: up to 300 in 320); received payloads of 0..4 bytes, first two elements (thorough: 5, three)',
     [ts('ts_payload.cpp', 0, ['refused', 'received', 'end'], k=2), ts('ts_payload.cpp', 0, ['refused', 'received', 'end'], k=3, cap=20, smax=16, thorough=dict(cap=320, smax=300)), ts('ts_payload.cpp', 1, ['string', 'signed', 'none', 'end'], n=4, k=1, thorough=dict(n=5, k=2), time=300)],
     ['what the client shows on the screen is not looked at', 'a payload with nil, binary or extension elements, which the class never makes, ends at that element'])
prop('C43', 'Requests of the client library are exact, repeated, and answered once',
     'The client library of the tester over UDP, directly or through a forwarder. It finds the gateway, connects with exactly the id, flags, keep alive and will it is configured with, also after a sleep, and is connected when CONNACK accepts it, not before. A publication goes out as it was given: at once when its topic id is known, else after REGISTER was accepted, all that wait for it. A request unanswered for 10 s is repeated with the same id (PUBLISH and SUBSCRIBE with DUP; PUBREL after PUBREC), and ended by its own acknowledgement and nothing else. A received message is given once, unchanged, to the function of the first subscription which matches, and acknowledged. A clean reconnect subscribes again what is subscribed. PINGREQ is sent when nothing was for the keep alive time, and three unanswered mean the gateway is lost.',
     ['histories', 'inputs', 'fault_sequences'], 'every sequence of events (answers, refusals, strays, losses, time) up to the bound, all ids and contents',
     'no existing test runs the client; lost requests need several in flight, refusals or lost messages.', [TS + f for f in ('LGwProxy.cpp', 'LPublishManager.cpp', 'LSubscribeManager.cpp', 'LRegisterManager.cpp', 'LTopicTable.cpp', 'LMqttsnClient.cpp', 'LNetworkUdp.cpp', 'LTimer.cpp')],
     [dict(name='LGwProxy::connect, disconnect, getMessage, writeMsg, readMsg', where=TS + 'LGwProxy.cpp'), dict(name='LPublishManager', where=TS + 'LPublishManager.cpp'), dict(name='LSubscribeManager', where=TS + 'LSubscribeManager.cpp'), dict(name='LRegisterManager', where=TS + 'LRegisterManager.cpp'), dict(name='LTopic::isMatch, LTopicTable', where=TS + 'LTopicTable.cpp')],
     'connecting: 3 events (thorough: 4), sleep and return with 2; 2 publications with 2 events (thorough: one with 4), 3 with 3 events at QoS 0 and 1; payloads of 0, 3, 247, 248, 249 and 300 bytes; 2 subscriptions or unsubscriptions with 2 events, 3 with 3 events accepted only; 1 message after them (thorough: 2); keep alive: 4 events (thorough: 5); ids of 1, 2, 22, 23 and 24 bytes',
     [ts('ts_client.cpp', 0, ['connected', 'no answer', 'stray', 'rejected'], k=3, thorough=dict(k=4)), ts('ts_client.cpp', 0, ['back', 'gone'], k=2, sleep=1, ids=0),
      ts('ts_client.cpp', 1, ['end', 'registered', 'repeated', 'complete', 'stray'], k=2, m=2), ts('ts_client.cpp', 1, ['end', 'registered', 'repeated'], k=3, m=3, thin=1), ts('ts_client.cpp', 1, ['end', 'registered', 'complete'], k=1, m=2, big=1), ts('ts_client.cpp', 1, ['end', 'registered', 'repeated'], k=1, m=2, big=1, fwd=1, thin=1),
      ts('ts_client.cpp', 1, ['end', 'complete', 'registration rejected', 'repeated'], k=1, m=4, tier='thorough'),
      ts('ts_client.cpp', 2, ['end', 'subscribed', 'refused', 'unsubscribed', 'stray'], k=2, m=2, n=0), ts('ts_client.cpp', 2, ['end', 'message', 'subscribed again', 'REGISTER taken', 'REGISTER refused'], k=2, m=2, n=1, thin=1, re=1), ts('ts_client.cpp', 2, ['end', 'message', 'a topic subscribed'], k=1, m=1, n=1), ts('ts_client.cpp', 2, ['end', 'subscribed', 'unsubscribed'], k=3, m=3, n=0, thin=1, to=3),
      ts('ts_client.cpp', 2, ['end', 'given up'], k=1, m=5, n=0, thin=1, **{'from': 1, 'to': 2}), ts('ts_client.cpp', 2, ['end', 'message', 'REGISTER taken'], k=1, m=1, n=2, thin=1, re=1, fwd=1), ts('ts_client.cpp', 2, ['end', 'message', 'REGISTER taken'], k=2, m=2, n=2, thin=1, tier='thorough', time=600),
      ts('ts_client.cpp', 3, ['end', 'ping', 'lost', 'alive'], k=4, thorough=dict(k=5)), ts('ts_client.cpp', 4, ['end', 'published before'])],
     ['the UDP sockets of the client are stand-ins', 'messages received are well formed', 'payloads and names fit into a packet', 'what happens after a publication was repeated three times is not looked at', 'a message received with QoS 2 is not acknowledged, which is a missing feature'])
prop('C44', 'The client library takes whole messages from its gateway only',
     'The tester\'s client library over UDP and UDP6. Opening the network succeeds exactly when every step does; then it is open on its own port and on that of the group it is configured with, and has joined that group. Each message goes out once, as it is, to the gateway it found, or to the group. Each datagram is taken once. A message is received exactly as it arrived if the datagram holds all of it (also of the one inside an encapsulation), and, when it was sent to the client alone, if it is from its gateway. Anything else - empty, incomplete, too short for its type, from somebody else - is ignored: nothing is sent, ended, connected or given to the application for it, nothing outside the datagram is read, and the next message is received as usual.',
     ['inputs', 'fault_sequences'], 'every datagram up to the bound with any sender and anything in the buffer behind it; every failing call',
     'no existing test runs the client; a malformed or foreign datagram is not among what a gateway sends in tests.', [TS + f for f in ('LNetworkUdp.cpp', 'LNetworkUdp6.cpp', 'LGwProxy.cpp')],
     [dict(name='LUdpPort::open, unicast, multicast, checkRecvBuf, recvfrom; LNetwork::getMessage', where=TS + 'LNetworkUdp.cpp'), dict(name='LUdp6Port::open, unicast, multicast, checkRecvBuf, recvfrom; LNetwork::getMessage', where=TS + 'LNetworkUdp6.cpp'), dict(name='LGwProxy::readMsg', where=TS + 'LGwProxy.cpp')],
     'one datagram of 0..4 bytes per socket at once (thorough: 6), two of 0..2 bytes after each other; messages of 2, 3, 255 and 400 bytes sent; any datagram of 0..8 bytes (thorough: 10), or an encapsulation with 0..8 bytes in it, while requests of each kind wait, and while the client looks for its gateway or connects (0..5 bytes, thorough: 8)',
     [ts('ts_net.cpp', w, r, group=g, **kw) for g in ('tester', 'tester6') for w, r, kw in ((0, ['open', 'failed'], {}), (1, ['end'], {}), (1, ['end'], dict(shown=1)), (2, ['received', 'ignored', 'end'], dict(thorough=dict(n=6))), (2, ['received', 'ignored', 'end'], dict(n=2, k=2)))] +
     [ts('ts_client.cpp', 5, ['ignored', 'PUBLISH', 'message', 'REGISTER', 'PUBREC', 'REGACK', 'end'], n=8, thorough=dict(n=10), time=400), ts('ts_client.cpp', 5, ['ignored', 'PUBLISH', 'REGISTER', 'end'], n=10, encap=1, **{'from': 2}), ts('ts_client.cpp', 5, ['waits on'], n=5, st=1, thorough=dict(n=8)), ts('ts_client.cpp', 5, ['waits on'], n=5, st=2, thorough=dict(n=8))],
     ['the sockets are stand-ins', 'over UDP6 the gateway is known by its address alone, as its broadcasts come from another port', 'what is shown on the screen is not looked at', 'the DTLS and RFCOMM ports of the client are not looked at'])
DTF = [GW + 'linux/dtls/SensorNetwork.cpp']
prop('C45', 'Over DTLS each packet comes from and goes to the right device',
     'Over DTLS (IPv4 and IPv6) every packet a connected device sends is received once, as it is, under the address of that device, whatever others send, and one sent to the group as from none of them. A packet for a device goes to it over its own connection if it is connected and to nobody otherwise; a broadcast goes to the configured group with the configured range. A device connects exactly when its handshake succeeds and there is room; one that leaves, in whichever way, or fails to connect leaves no connection and no socket behind and disconnects nobody else. Opening the network succeeds exactly when every step does. A cookie is good for the address it was made for and no other; addresses match exactly when they are the same; a text is taken for an address exactly when it is one, and for that one.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'], 'every history of devices connecting, sending, leaving and being sent to, up to the bound; every outcome of a handshake and every failing call; every interleaving of one receiving and one sending task; all addresses',
     'no existing test opens a DTLS network, which did not even compile; packets mix up only when devices leave, are behind one another\'s address, or come when there is no room.', DTF, [dict(name='SensorNetwork::read/unicast/broadcast/initialize/getUnicastClient', where=DTF[0]), dict(name='Connections', where=DTF[0]), dict(name='SensorNetAddress::setAddress/isMatch, generate_cookie, verify_cookie', where=DTF[0])],
     '2 steps from 0 and 2 devices, 3 from 1 (thorough: 3 from 0..3, 4 from 2), room for 2 devices (thorough: 3) of 4, two of them with one port and two with one address; packets of 1..3 bytes; each failing call alone; one event and two packets sent at the same time, preempted at every lock operation',
     [net(g, 'net_dtlsthr.cpp' if w == 4 else 'net_dtls.cpp', w, r, **kw) for g in ('dtls', 'dtls6') for w, r, kw in ((0, ['open', 'failed', 'end'], {}), (2, ['end'], {}), (3, ['match', 'address', 'no address', 'end'], {}), (4, ['both sent', 'one sent', 'end'], dict(switches=8, races=1)),
       (1, ['connected', 'not connected', 'gone', 'nothing', 'sent', 'not sent', 'to the group', 'end'], dict(k=2, pre=0, thorough=dict(k=3, max=3))), (1, ['connected', 'full', 'not connected', 'several', 'gone', 'sent', 'not sent', 'end'], dict(k=3, pre=1)), (1, ['connected', 'full', 'not connected', 'several', 'gone', 'sent', 'not sent', 'to the group', 'end'], dict(k=2, pre=2, thorough=dict(k=4))), (1, ['connected', 'full', 'several', 'gone', 'end'], dict(k=2, pre=3, max=3, thorough=dict(k=3))))],
     ['the sockets and the TLS library are stand-ins: a handshake succeeds or fails at once, a record carries one packet, a digest differs when the data do', FIX[0]])
prop('C46', 'The tasks of a client run when they are due',
     'The client library runs each task of its list whenever its interval has passed since it ran last, in the order of the list, and once each time; but never while one of the publications it made is under way (its topic is being registered, or an answer is to come, however often it is repeated), and again once all of them are over. Publications made for a received message, and answers which come twice, hold up no task and release none.',
     ['histories', 'inputs'], 'every history of what tasks publish, what is answered, repeated or received, and how time passes, up to the bound',
     'no existing test runs the client; the order of acknowledgements decides it.', [TS + 'LTaskManager.cpp', TS + 'LPublishManager.cpp'], [dict(name='LTaskManager::run, suspend, done, getIndex', where=TS + 'LTaskManager.cpp'), dict(name='LPublishManager::add, delElement, published, responce, sendSuspend', where=TS + 'LPublishManager.cpp')],
     '2 tasks (and 3) with intervals of 0..2 seconds, 2..4 moments (thorough: up to 5) at which time passes or something arrives, up to 2 turns (thorough: 3) in which a task publishes: nothing, or one or two of QoS 0..2 to known or unknown topics',
     [ts('ts_tasks.cpp', 0, ['answered', 'received', 'few', 'many', 'end'], k=2), ts('ts_tasks.cpp', 0, ['answered', 'received', 'many', 'end'], k=3, acts=2, iv=1, thorough=dict(acts=3)), ts('ts_tasks.cpp', 0, ['answered', 'received', 'few', 'many', 'end'], k=3, acts=2, iv=12, thorough=dict(k=4)), ts('ts_tasks.cpp', 0, ['answered', 'received', 'end'], k=3, acts=1, iv=0, slow=1, thorough=dict(k=4)), ts('ts_tasks.cpp', 0, ['answered', 'received', 'few', 'end'], k=4, acts=1, iv=11, thorough=dict(k=5)), ts('ts_tasks.cpp', 0, ['answered', 'received', 'end'], k=2, acts=2, iv=1, tasks=3, thorough=dict(k=3))],
     ['the connection to the gateway is a stand-in: a moment is a look of the client for messages', 'in one turn a task makes fewer than 256 publications', 'the tasks of the tester proper, which are started by hand, are not looked at'])
