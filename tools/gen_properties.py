import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
L='src/lib.rs'; C='src/client.rs'; K='src/mqtt_codec.rs'; I='src/pktids.rs'; M='src/protocol/mod.rs'
p('C01','A session opens with CONNECT and is used only after the broker accepts it',
 "On every connection the client first transmits exactly one MQTT 5 CONNECT asking for a clean start with a non-zero keep-alive, and transmits nothing else until a CONNACK that accepts the connection has arrived; requests made meanwhile are kept and transmitted afterwards. The application receives exactly one connection notification, before every other notification. If the TCP connection cannot be made, or the broker refuses, answers with any other packet, closes or breaks the connection before accepting, the event loop promptly ends with an error and no request is ever transmitted.",
 ['schedules','fault_sequences','histories'],'every order and timing of requests, connection attempt, segmented/delayed CONNACK, refusal, wrong packet, close and reset',
 'No test runs the event loop at all; none covers a refused, missing, split or wrong CONNACK.',
 [L,C,'src/protocol/connect.rs','src/protocol/connack.rs'],
 [('connection state','not connected / connected','src/lib.rs EventLoopState')],
 [('connect, send CONNECT, wait for CONNACK, notify',L+' poll()'),('connection attempt failure is returned','src/lib.rs EventLoop::poll')],
 ['bytes written to the socket','notification stream','result of the event loop'])
p('C02','Accepted requests are transmitted exactly once and in order',
 "Every publish, subscribe and unsubscribe request the client accepts, from any clone of the handle, is transmitted exactly once, in the order of acceptance, as long as the session lasts; when the session ends early, what was transmitted is a prefix of what was accepted. Nothing the application did not request is transmitted apart from the connection, acknowledgement and keep-alive packets of the protocol. A request is never lost, repeated or reordered by slow, short or stalled writes, by incoming traffic or by timers.",
 ['schedules','fault_sequences','histories'],'every interleaving of request calls, socket readiness, short writes, inbound packets and timer ticks, and every point at which the session ends',
 'The tests never send a request through a client handle; loss or duplication needs a particular interleaving with partial writes, inbound packets or timer ticks.',
 [L,C],[('request queue','requests accepted and not yet transmitted',C+' Client.tx / '+L+' commands_rx')],
 [('bounded FIFO channel',C+' Client::new'),('one request handled per select turn, written before the next',L+' poll()')],
 ['bytes written to the socket','return values of the client handle'])
p('C03','Every byte sent is part of a well-formed packet carrying what was asked',
 "At every moment the bytes transmitted are a prefix of a sequence of well-formed MQTT 5 packets: correct fixed header, minimal exact remaining length, intact length-prefixed strings and properties. Each request packet carries exactly the topic or filter, payload bytes, properties and quality of service the application asked for. A request that cannot be encoded, such as one with a string or binary value longer than 65535 bytes, is refused at the call and contributes no byte.",
 ['inputs','schedules','fault_sequences'],'all topics, filters, payloads, property lists and sizes accepted by the API, under all ways the transport may cut and delay the writes',
 'No test encodes a packet; length boundaries (127/128, 16383/16384, 65535/65536), empty and non-ASCII strings and short writes are all untested.',
 [K,M,'src/protocol/publish.rs','src/protocol/subscribe.rs','src/protocol/unsubscribe.rs','src/protocol/connect.rs','src/protocol/disconnect.rs','src/protocol/properties.rs','src/protocol/puback.rs',C],
 [],[('packet encoders','src/protocol/*.rs'),('framed writer',K+' Encoder'),('request admission',C)],
 ['bytes written to the socket','return values of the client handle'])
p('C04','No two unfinished exchanges share a packet identifier',
 "Every subscribe, unsubscribe and acknowledged publish goes out with a non-zero packet identifier that no other exchange of the session is still using. An exchange is finished only when the acknowledgement of its own kind carrying its identifier arrives. Acknowledgements that are repeated, unsolicited, of the wrong kind or in any order never cause an identifier that is still in use to be handed out again.",
 ['histories','fault_sequences','schedules'],'every history of requests and acknowledgements, including duplicate, unsolicited, mismatched and reordered acknowledgements, up to and beyond the whole identifier space',
 'The four allocator tests return a few distinct, currently taken identifiers; none returns a free one, none reaches 65535, none involves acknowledgements of different kinds.',
 [I,L],[('free identifier ranges','sorted list of free ranges',I+' PktIds')],
 [('lowest free identifier is taken, returned ones are merged into free ranges',I+' next_id/return_id'),('acknowledgements return identifiers',L+' poll()')],
 ['bytes written to the socket','acknowledgements delivered'],'small identifier space knob (cfg ruq_sim) so exhaustion is reached often; full-size space is run too')
p('C05','Packet identifiers are recycled, and running out only delays requests',
 "Once an exchange is acknowledged its identifier becomes usable again, so however long a session lasts no identifier is lost and any number up to 65535 of exchanges can be outstanding at once. When every identifier is in use, further requests that need one are not failed or dropped: they wait and are transmitted, still in order, as soon as acknowledgements free identifiers. The event loop neither panics nor ends because identifiers ran out.",
 ['histories','schedules'],'every history of requests and acknowledgement orders, including exhaustion of the whole space and arbitrary fragmentation of the free ranges',
 'Leaks and exhaustion need tens of thousands of operations or special release orders; the tests use 12 identifiers and one order.',
 [I,L],[('free identifier ranges','sorted list of free ranges',I+' PktIds')],
 [('range allocator',I+' next_id/return_id'),('acknowledgements return identifiers',L+' poll()')],
 ['bytes written to the socket','result of the event loop'],'small identifier space knob (cfg ruq_sim)')
p('C06','Incoming messages and acknowledgements reach the application once, in order',
 "Every quality-of-service 0 or 1 message, subscribe acknowledgement and unsubscribe acknowledgement received in full, built from supported properties, is handed to the application exactly once, in arrival order, showing the topic, payload, properties and flags, or the packet identifier, verdict and properties, that were sent; the notification of the broker's answer to the connection likewise shows its session-present flag, whether it accepts, and its properties. This does not depend on how the byte stream is cut into reads or interleaved with other activity. A packet that has not arrived in full is never shown.",
 ['inputs','schedules','fault_sequences'],'all sequences of valid broker packets with supported properties, under all segmentations, delays and interleavings with outgoing traffic and timers',
 'Three tests parse one short PUBLISH from one slice; no test goes through the stream decoder or the notification stream, or cuts a packet.',
 [L,K,M,'src/protocol/publish.rs','src/protocol/properties.rs','src/protocol/suback.rs','src/protocol/unsuback.rs','src/protocol/connack.rs'],
 [('receive buffer','bytes read and not decoded',K)],
 [('frame decoder',K+' Decoder'),('dispatch to notification channel',L+' poll()')],['notification stream'])
p('C07','An incoming QoS 1 message is acknowledged once, after it is handed over',
 "For every quality-of-service 1 message received in full the client transmits exactly one successful acknowledgement carrying that message's identifier, in the order the messages arrived, as long as the session lasts. The acknowledgement is never transmitted before the message has been handed to the application's notification stream, so stopping the client at any instant loses no acknowledged message. Messages of quality 0 are never acknowledged.",
 ['schedules','crash_points','fault_sequences'],'every interleaving of inbound messages, a slow application, stalled writes and every instant at which the event loop is dropped',
 'No test receives a message through the event loop; the window between acknowledging and handing over opens only when the notification queue is full and the loop then stops.',
 [L,'src/protocol/puback.rs',M],[('notification queue','messages handed over and not yet taken',L+' notifications_tx')],
 [('notify then acknowledge',L+' poll()'),('acknowledgement encoding',M+' Packet::convert_to_mqtt, src/protocol/puback.rs')],
 ['bytes written to the socket','notification stream after a crash'])
p('C08','No bytes from the broker can crash or hang the client',
 "Whatever bytes the broker sends, in whatever pieces, before or after the connection is accepted, the event loop never panics and never loops without yielding. A packet that cannot be decoded (fields running past its end, invalid text, identifier, reason or property), or one of a kind this client does not support, ends the event loop with an error; neither it nor anything after it is shown to the application. Everything that arrived in full before it is still delivered.",
 ['inputs','fault_sequences','schedules'],'all byte strings (mutated, truncated and random packets) at every stage of a session under every segmentation',
 'One test feeds one malformed string to one decoder; the decoders index and subtract on attacker-controlled lengths.',
 [K,M,'src/protocol/publish.rs','src/protocol/connack.rs','src/protocol/puback.rs','src/protocol/suback.rs','src/protocol/unsuback.rs','src/protocol/disconnect.rs','src/protocol/properties.rs','src/protocol/pingresp.rs',L],
 [],[('length checks and error returns in decoders','src/protocol/*.rs'),('decode errors end the loop',L+' poll()')],
 ['result of the event loop','notification stream','absence of panic and of unbounded polling'])
p('C09','The connection never stays silent longer than the announced keep-alive',
 "From the acceptance of the connection until the session ends, the client never lets more than the keep-alive interval it announced in CONNECT pass without transmitting a packet, sending a ping request when there is nothing else. This holds for any pattern of traffic in either direction and for sessions of any length, as long as the event loop is scheduled, the transport accepts writes and the application takes its notifications. After a period in which it could not run, the client transmits a ping again as soon as it can.",
 ['schedules','histories','fault_sequences'],'every traffic pattern over simulated hours, with stalls and clock jumps between',
 'No test touches time; a keep-alive interval is 8 s of wall clock and the failure needs particular traffic.',
 [L,'src/protocol/pingreq.rs','src/protocol/connect.rs'],[('ping timer','next ping instant',L+' poll() ping')],
 [('interval timer branch of the select loop',L+' poll()')],['bytes written to the socket with simulated time'])
p('C10','A broker that stops answering pings is detected',
 "Once the connection is accepted, if a ping request gets no ping response by the time the next one is due, the event loop ends with a time-out error at that moment, whatever other traffic flows in either direction, as long as the transport accepts writes and the application takes its notifications. Hence a broker that stops responding is then reported within two keep-alive intervals. Detection works again after any number of answered pings.",
 ['schedules','fault_sequences','histories'],'every instant at which the broker goes silent, fully or only for pings, with any other traffic continuing',
 'No test touches time or the event loop; the failure needs a broker that goes silent at a chosen instant.',
 [L],[('outstanding ping','whether the last ping was answered',L+' poll() pingresp_received')],
 [('second unanswered tick returns TimedOut',L+' poll()')],['result of the event loop with simulated time'])
p('C11','A broker that answers pings in time is never reported as dead',
 "If the response to every ping request reaches the client before the next ping is due, the event loop never ends with a time-out error. This holds for any traffic, any response delay below the interval, and also when the event loop itself is delayed, stalled or held up by a slow application or transport, or the clock jumps. In particular a broker is always given a full interval to answer a ping before being judged.",
 ['schedules','fault_sequences','histories'],'all response delays below the interval, stalls of the loop, transport and application, and clock jumps, in every phase relative to the ping timer',
 'No test touches time; the failure needs the loop to be held up across one or more ping deadlines.',
 [L],[('outstanding ping','whether the last ping was answered',L+' poll() pingresp_received'),('ping timer','next ping instant',L+' poll() ping')],
 [('response clears the outstanding flag; timer restarts',L+' poll()')],['result of the event loop with simulated time'])
p('C12','The event loop ends exactly when the session does, with the right outcome',
 "After the connection is accepted the event loop ends only because the application disconnected, the broker sent DISCONNECT, the connection closed or failed, the broker broke the protocol, or a ping timed out. It ends successfully after a normal DISCONNECT or a clean close between packets, and with an error after a DISCONNECT with any other reason (which the error names), a close in the middle of a packet, or a read or write failure. It ends as soon as it meets that condition, closes the connection and transmits nothing more.",
 ['fault_sequences','crash_points','schedules'],'every byte position and instant at which the connection ends, every disconnect reason, and every other activity in progress',
 'No test ends a connection; the outcome depends on where in the byte stream and in the loop the end falls.',
 [L,K,'src/protocol/disconnect.rs'],[],
 [('result mapping in the read branch',L+' poll()'),('write errors propagate',L+' poll()'),('incomplete frame at end of stream is an error',K)],
 ['result of the event loop','socket closed','bytes written to the socket'])
p('C13','disconnect() drains earlier requests, then ends the session cleanly',
 "After the application asks to disconnect, every request accepted before it is transmitted first, then exactly one DISCONNECT with the normal reason is transmitted as the last packet of the connection, the connection is closed and the event loop ends successfully. Requests accepted later are not transmitted. This holds whatever traffic, slow writes or unanswered exchanges are in progress.",
 ['schedules','histories','fault_sequences'],'every amount and kind of pending requests, transport backpressure and inbound traffic at the time of the call',
 'No test disconnects.',
 [L,C,'src/protocol/disconnect.rs'],[],[('disconnect request travels in the same FIFO; loop returns after writing it',L+' poll()')],
 ['bytes written to the socket','socket closed','result of the event loop'])
p('C14','The event loop always makes progress and sleeps when idle',
 "Whenever a request is waiting, bytes have arrived or a timer is due, the event loop acts on it without needing any other event, and none of these can be starved by a continuous supply of the others. When there is nothing to do the event loop is asleep: it does not keep waking itself or run without yielding, including after every client handle has been dropped or the application stopped taking notifications. With all handles dropped it keeps serving the connection: messages are still delivered and pings still sent.",
 ['schedules','histories','configurations'],'every schedule of wake-ups, spurious polls, floods in either direction, and every moment the handles or the notification stream are dropped',
 'No test polls the event loop; a lost wake-up, starvation or spin shows only under a particular schedule.',
 [L,C],[],[('select over timer, socket and request queue with random order',L+' poll()')],
 ['polls and wake-ups of the event loop','bytes written to the socket'])
p('C15','Requests are admitted within bounds, and refused once the session is over',
 "Every request call returns at once, either accepting the request or refusing it with an error; an encodable request is refused only when at least 100 requests are waiting or the session is over, and no more than about 100 plus one per handle can ever be waiting. A refused request is never transmitted. Once the event loop has ended (whether or not its value is kept) or been dropped, at any instant, every request call on every handle is refused, the connection is closed, and the notification stream yields what was already handed over and then ends.",
 ['schedules','histories','crash_points'],'every interleaving of calls on any number of cloned handles with the event loop, and every instant at which the loop ends or is dropped',
 'No test uses a client handle.',
 [C,L],[('request queue','bounded channel',C+' Client::new')],[('bounded channel and try_send',C),('receiver dropped with the loop',L)],
 ['return values of the client handle','bytes written to the socket','notification stream'])
p('C16','A slow or absent notification reader loses nothing and breaks nothing',
 "When the application takes notifications slowly or pauses for any time, none is lost, repeated or reordered; the client buffers a bounded number, stops reading from the broker meanwhile, and resumes by itself when the application does. When the application drops the notification stream altogether, requests are still transmitted, pings still sent and their responses recognised, and the session still ends properly. No quality-of-service 1 message is acknowledged that was not handed over.",
 ['schedules','fault_sequences','histories'],'every pattern of pauses of the application, of inbound bursts larger than the buffer, and every instant the stream is dropped',
 'No test reads notifications; overflow needs more than 100 undelivered notifications.',
 [L,C],[('notification queue','bounded channel of handed-over notifications',C+' Client::new')],[('bounded channel with awaiting send',L+' poll()')],
 ['notification stream','bytes written to the socket','bytes taken from the socket'])
p('C17','Sessions in one process do not affect each other',
 "Several clients used at the same time in one process behave each as if it were alone: requests go out on their own connection, notifications and acknowledgements stay with their own session, packet identifiers and keep-alive state are per session. The failure, stall or end of one session changes nothing in the others.",
 ['schedules','histories','fault_sequences'],'every interleaving of two or more sessions with independent traffic, faults and ends',
 'No test creates a session, let alone two.',
 [L,C,I],[],[('all state is owned by the event loop value',L+' EventLoop')],['everything observable of each session'])
p('C18','Memory follows what is unfinished, not how long the session lasts',
 "At any quiet moment the client holds no more memory than fixed buffers, a few times the largest packet, what is waiting to be transmitted, acknowledged or taken by the application, and room for the most exchanges there have been at once. Whatever is finished (a request transmitted, an exchange acknowledged, a notification taken) is released, so a session of any length and history needs no more than a short one. When the event loop, the handles and the notification stream are all gone nothing is left.",
 ['histories','schedules','fault_sequences'],'every session length and every order of requests, acknowledgements, messages, faults and ends',
 'No test runs a session, and memory that is never released shows only after a long one.',
 [L,C,I],[('unacked publishes','queue of copies kept until acknowledged',L+' poll() queue'),('free identifiers','list of ranges',I)],[('entries removed on acknowledgement',L+' poll() SubAck, UnsubAck, PubAck arms'),('vacant nodes reused',I+' return_id')],['memory allocated by the client and not freed'])
p('D01','Reason codes are decoded to their own names',
 "Every reason code assigned by MQTT 5 to an acknowledgement or disconnect packet is decoded to its own distinct reason, and every unassigned code is rejected.",
 ['inputs'],'all 256 byte values for each packet kind','No test decodes a reason code other than success.',
 ['src/protocol/connack.rs','src/protocol/puback.rs','src/protocol/suback.rs','src/protocol/unsuback.rs','src/protocol/disconnect.rs'],
 [],[('one match table per packet kind','src/protocol/*.rs TryFrom<u8>')],['decoded packet'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import re
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
