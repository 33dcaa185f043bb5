#!/usr/bin/env python3
"""writes tools/props.json: per property, the functions it rests on (roots), those whose failed obligations are its own violations (primary), what it assumes"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = {
 'b64': 'base64 decoding undoes encoding (general_purpose URL_SAFE engine)',
 'sec1': 'k256: SEC1 and scalar encodings are 33/32 bytes and decode to the key they came from',
 'ecdsa': 'k256: ECDSA verification answers are a function of key, message and signature; a signature made with a key verifies under its public key; unforgeability is not modelled',
 'dh': 'k256: Diffie-Hellman is symmetric; HKDF is a function of its inputs and gives the asked length',
 'aead': 'aes-gcm, chacha20poly1305: opening undoes sealing with the same key and nonce; sealing succeeds for data up to the cipher limit',
 'zip': 'brotli, flate2: decompressing undoes compressing for every sane parameter set; the decoders are functions of their input',
 'json': 'serde_json::Value behaves as a tree of null, booleans, numbers, strings, lists and string-keyed maps',
 'rng': 'rand_chacha: random numbers are arbitrary values of their type (no randomness quality is modelled)',
 'net': 'the HTTP client behind the HttpClient trait is arbitrary: each get or post it is asked for is one request sent, answered by anything (the world\'s log of requests is the specification\'s ghost state)',
 'router': 'any Router and MessagesInbox implementation is arbitrary: its required methods answer anything (the world records what it is asked to do)',
 'async': 'async functions are verified as the same code run without interleaving (await points dropped); tracing attributes dropped',
 'coll': 'VecDeque, HashSet and HashMap behave as sequences, sets and maps',
 'str': 'std strings, vectors and formatting behave as their mathematical sequences',
}
def a(*k): return [A[x] for x in k]
P = {}
P['C01'] = dict(roots=['rest_api::types::*', 'rest_api::request::*', 'rest_api::response::*', 'rest_api::requests::*', 'rest_api::status::*', 'crypto::*', 'address::Address as FromStr*', 'address::parse'], primary=['.*'], panics_only=True, assumptions=a('b64', 'sec1', 'json', 'zip', 'str') + ['library functions called within their stated preconditions do not panic'])
P['C02'] = dict(roots=['rest_api::types::*', 'rest_api::Vec as AsJson*', 'rest_api::Box as AsJson*'], primary=[r'rest_api::types::.*AsJson::.*', r'rest_api::(Vec|Box) as AsJson::.*', r'rest_api::types::connection_token::.*', r'rest_api::types::(client|server|sender|client_info|message_info|message)::\w+::(new|thin|thick|server|file|now)'], assumptions=a('b64', 'sec1', 'json', 'str'))
P['C03'] = dict(roots=['rest_api::request::*', 'rest_api::response::*', 'rest_api::requests::*', 'rest_api::status::*'], primary=[r'rest_api::(request|response|requests)::.*AsJson::.*', r'rest_api::status::.*', r'rest_api::requests::(clients|servers|info)::response::\w+::new'], assumptions=a('b64', 'sec1', 'json', 'str'))
P['C04'] = dict(roots=['rest_api::request::*', 'rest_api::requests::*', 'crypto::utils::*'], primary=[r'rest_api::request::Request::(new|validate)', r'rest_api::requests::.*Request::(new|client|server|validate)', r'rest_api::requests::.*RequestBody::.*(?<!_json)', r'crypto::utils::.*'], assumptions=a('ecdsa', 'rng', 'str'))
P['C05'] = dict(roots=['rest_api::response::*', 'rest_api::requests::*'], primary=[r'rest_api::response::Response::(success|error|validate|status|standard)', r'rest_api::requests::.*Response::(success|error|validate|new)', r'rest_api::requests::.*ResponseBody::(new|local|remote|hint)'], assumptions=a('ecdsa', 'str'))
P['C06'] = dict(roots=['rest_api::types::connection_certificate::*', 'rest_api::types::connection_token::*', 'rest_api::requests::connect::*', 'rest_api::requests::announce::*'], primary=[r'rest_api::types::connection_(certificate|token)::\w+::(?!.*json).*', r'rest_api::requests::connect::.*Request::(new|validate)', r'rest_api::requests::connect::request::ConnectRequestBody::(new|from_certificate)', r'rest_api::requests::announce::AnnounceRequest::(client|validate)'], assumptions=a('ecdsa', 'sec1'))
P['C07'] = dict(roots=['rest_api::types::message::*', 'rest_api::types::message_encoding::*'], primary=[r'rest_api::types::message::Message::(new|create|read)', r'rest_api::types::message_encoding::MessageEncoding::(forward|backward)', r'crypto::asymmetric::secret_key::SecretKey::create_shared_secret'], assumptions=a('ecdsa', 'dh', 'aead', 'zip', 'b64'))
P['C08'] = dict(roots=['crypto::encoding::*', 'crypto::compression::*', 'crypto::encryption::*', 'rest_api::types::message_encoding::*'], primary=[r'crypto::(encoding|compression|encryption)::(?!.*(from_str|fmt)).*', r'rest_api::types::message_encoding::MessageEncoding::(forward|backward|new)'], assumptions=a('aead', 'zip', 'b64'))
P['C09'] = dict(roots=['rest_api::types::client_type::*', 'rest_api::types::message_encoding::*', 'rest_api::status::*', 'crypto::encoding::*', 'crypto::compression::*', 'crypto::encryption::*'], primary=['.*FromStr::.*', '.*Display::.*', 'rest_api::status::.*'], assumptions=a('str'))
P['C10'] = dict(roots=['crypto::asymmetric::*'], primary=['crypto::asymmetric::.*'], assumptions=a('ecdsa', 'dh', 'sec1', 'b64', 'rng'))
H = 'rest_api::middleware::server::Server::new#'
NEW = 'rest_api::middleware::server::Server::new'
for c, prim in (('C11', [H + 'post .*', NEW]), ('C12', [H + 'post /api/v1/lookup']), ('C13', [H + '.*', NEW])):
    P[c] = dict(roots=[H + '*', NEW] if c != 'C12' else [H + 'post /api/v1/lookup'], primary=prim, assumptions=a('router', 'async', 'ecdsa', 'rng', 'str') + ['Server::new hands each handler to the HTTP server at the place where its closure is written, next to its path: the extraction names the handler after that path (the contract of Server::new proves that exactly the nine paths are registered, once each, on the server given); that the closure captures the driver given is read off the extraction (its captured variables are parameters of the handler) and left to the bounded replay harness'])
P['C14'] = dict(roots=['drivers::server::router::Router*'], primary=[r'drivers::server::router::Router::.*'], assumptions=a('router', 'async', 'str'))
CL = ['rest_api::middleware::client::*', 'drivers::client::*']
P['C18'] = dict(roots=CL, primary=[r'rest_api::middleware::client::(Client|ConnectedClient)::(new|get_info|get_clients|get_servers|connect|connect_to|disconnect|disconnected|announce|send|poll|connected_server|connection_certificate)', r'http::client::HttpClient::.*'], assumptions=a('net', 'async', 'ecdsa', 'json', 'rng', 'str'))
P['C19'] = dict(roots=CL, primary=[r'rest_api::middleware::client::(Client|ConnectedClient)::.*', r'drivers::client::.*', r'http::client::HttpClient::.*'], assumptions=a('net', 'async', 'ecdsa', 'json', 'rng', 'str'))
P['C20'] = dict(roots=['rest_api::middleware::client::ConnectedClient::lookup'], primary=[r'rest_api::middleware::client::ConnectedClient::lookup'], assumptions=a('net', 'async', 'coll', 'ecdsa', 'json', 'rng', 'str') + ['termination: proved that no address is asked twice (lemma lem_once over the loop contract), so the loop ends when finitely many addresses are hinted; Verus itself is not asked for a decreases measure, since the set of hinted addresses is not bounded by anything in the program'])
P['C21'] = dict(roots=['drivers::server::traversal::bfs_recursion::BfsRecursionTraversal as Traversal::traverse'], primary=[r'drivers::server::traversal::bfs_recursion::.*traverse'], assumptions=a('net', 'router', 'async', 'coll', 'str') + ['the network is finite: a finite set holds every server that a router or a server ever lists (hypothesis finite_network, in the contract as a precondition); a server is its record (key and address)'])
P['C22'] = dict(roots=['address::*'], primary=[r'address::.*'], assumptions=a('net', 'async', 'coll', 'b64', 'sec1', 'str'))
D = ['the file system keeps what was written to a path until it is written, renamed or removed; a folder lists its entries once each, in any order; an operation that could succeed does (hypothesis disk_ok in the contracts; the frame conditions hold without it)', 'a joined name of letters, digits, "-", "_" and "=" is one path component (the contracts prove that every joined name is of this kind)']
GT = 'drivers::server::router::global_table::*'
SQ = 'drivers::server::messages_inbox::stored_queue::*'
P['C15'] = dict(roots=[GT], primary=[r'drivers::server::router::global_table::GlobalTableRouter.*'], assumptions=D + a('async', 'json', 'sec1', 'b64', 'str'))
P['C16'] = dict(roots=[SQ], primary=[r'drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox.*'], assumptions=D + a('async', 'json', 'sec1', 'b64', 'str') + ['the random 64-bit id of a new message is not the id of a message waiting in the same inbox (hypothesis of the contract of add_message)'])
P['C17'] = dict(roots=[SQ], primary=[r'drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox.*'], assumptions=D + a('async', 'json', 'sec1', 'b64', 'str') + ['the random 64-bit id of a new message is not the id of a message waiting in the same inbox (hypothesis of the contract of add_message)'])
P['C26'] = dict(roots=[SQ, GT], primary=[r'drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox.*', r'drivers::server::router::global_table::GlobalTableRouter.*'], assumptions=D + a('async', 'json', 'sec1', 'b64', 'str') + ['one operation on a file (writing it, removing it, making folders) happens completely or not at all; what a power cut leaves of a half-written file is not modelled', 'the random 64-bit id of a new message is not an id of the index, nor the name of a file, of the same inbox (hypothesis of the contract of add_message)', 'the next operation starts when the file operation the stopped one was in has ended'])
P['C23'] = dict(roots=['port_forward::*'], primary=[r'port_forward::upnp::UpnpPortForwarder.*'], assumptions=['easy_upnp: each configuration is one request to the gateway, made when its outcome is asked for, answered by anything (the world\'s log of requests is ghost state); whether the gateway does what it agreed to is its own affair', 'the table behind the mutex is accessed exclusively while an operation runs and the lock is never poisoned (std::sync::Mutex taken as exclusive access; operations one after another)'] + a('async', 'coll', 'str'))
P['C24'] = dict(roots=['http::*', 'rest_api::middleware::server::Server::serve'], primary=[r'http::client::HttpClient::(get|post)_request', r'http::client::ReqwestHttpClient as HttpClient::.*', r'http::server::AxumHttpServer as HttpServer::(get|post|serve).*', r'rest_api::middleware::server::Server::serve', r'http::server::AxumHttpServer::default'], assumptions=['reqwest: a built request is one exchange on the wire (ghost log) with the method, address and JSON body it was given; json() gives the document the body is, or an error (redirects, TLS, proxies and retries are its own affair)', 'tokio/axum serve: the listener bound to an address listens there, and axum::serve answers exactly the routes of the service it is given until it fails', 'axum: the closure given for a path and method is called for exactly the requests of that path and method, with their body and peer address; its answer is sent as it is; a path and method registered twice panics', 'handlers are arbitrary functions from the decoded request and the world to an answer and the world'] + a('net', 'async', 'json', 'str'))
json.dump(P, open(V + '/tools/props.json', 'w'), indent=1)
