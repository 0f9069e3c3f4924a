"""The properties. mk.py writes properties.jsonl and MANIFEST.json from this."""

S = "src/fedservice/"
PROPS = []


def P(pid, title, statement, over, text, why, files, mech, observe, note):
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                      files=[S + f for f in files],
                      mech=[{"name": n, "where": S + w} for n, w in mech],
                      observe=observe, note=note))


P("C01", "Only chains signed link by link from a configured trust anchor are accepted",
  "A trust chain is accepted if, and only if, it is headed by a configured trust anchor, each "
  "statement is about the entity that issued the next one, and each statement carries a valid "
  "asymmetric signature by a key that its immediate superior in that same chain (for the first "
  "statement: the trust anchor configuration) vouches for. Nothing that was presented or accepted "
  "earlier, and nothing a statement says about its own keys, changes that verdict. An accepted "
  "chain reports the statements as they were signed, the anchor, the issuer path from the subject "
  "up, and the earliest expiry time among its statements. (An entity that has no superiors is a "
  "trust anchor to itself.)",
  ["inputs", "histories"],
  "every list of statements (genuine, forged, tampered, spliced, reordered), after every sequence "
  "of earlier verifications",
  "Tests verify a handful of genuine chains; no test presents a hostile chain, or one after another.",
  ["entity/function/verifier.py", "entity/function/__init__.py"],
  [("verify_trust_chain walks from the anchor down", "entity/function/verifier.py"),
   ("trusted_anchor", "entity/function/verifier.py")],
  ["return value of the trust chain verifier"],
  "Sampling of hostile histories against an independent, stateless verification oracle.")

P("C02", "Nothing is trusted past its expiry time",
  "A trust chain that contains an expired statement is refused at that time, and a chain's expiry "
  "time is the earliest of its statements'. Metadata and trust chains that an entity keeps, and "
  "statements it caches, are not handed out once they have expired: they are collected anew, or "
  "there is none. An entity whose current statements are all valid can be verified at any time, "
  "whatever was cached before.",
  ["inputs", "histories", "schedules"],
  "every combination of lifetimes, and every sequence of look-ups and passages of time",
  "Tests run at one instant: nothing in them expires, so no cache is ever used beyond its time.",
  ["entity/function/verifier.py", "entity/__init__.py", "entity_statement/cache.py",
   "entity_statement/statement.py", "entity/function/trust_chain_collector.py"],
  [("expiry test on statements and chains", "entity_statement/statement.py"),
   ("cache of statements", "entity_statement/cache.py"),
   ("stored trust chains", "entity/__init__.py")],
  ["get_trust_chains", "get_verified_metadata", "ESCache", "TrustChain.is_expired"],
  "Sampling of lifetimes and histories under a virtual clock, checked against what was served.")

P("C03", "Only accepted trust chains change the federation key store",
  "The set of keys held per entity changes only when a trust chain is accepted, and then exactly by "
  "the keys which that chain's statements vouch for. Refused chains leave it as it was, and nobody "
  "but a trust anchor itself can add to the keys that count as that anchor's.",
  ["inputs", "histories"],
  "every sequence of genuine and hostile chain verifications",
  "No test looks at the key store after a refused chain.",
  ["entity/function/verifier.py"],
  [("storing of keys after verification", "entity/function/verifier.py")],
  ["the federation entity's key jar"],
  "Key store snapshots around every verification of the C01 histories.")

P("C04", "Naming constraints set by any superior bind every entity below it",
  "When a superior in a trust chain sets naming constraints, the chain is accepted only if the host "
  "of every entity below it, at any depth, is covered by its permitted list, if there is one, and "
  "by nothing in its excluded list; naming constraints are not a reason to refuse a chain otherwise. "
  "A constraint whose host starts with a dot covers all hosts in that domain but not the domain "
  "itself, any other constraint covers exactly its host. Paths, ports and letter case of an entity "
  "identifier make no difference.",
  ["inputs"],
  "every chain, every set of lists at every level, every entity identifier",
  "The tests call the helpers that merge lists; none evaluates the constraints of a chain.",
  ["entity_statement/constraints.py", "entity/function/verifier.py"],
  [("meets_restrictions", "entity_statement/constraints.py")],
  ["verdict of the trust chain verifier", "verdict of the constraints evaluation"],
  "Random chains and lists against an independent evaluation; helper functions not used by the "
  "evaluation are not covered.")

P("C05", "A maximum path length set by any superior limits the chain below it",
  "When a superior in a trust chain sets a maximum path length, the chain is accepted only if there "
  "are no more intermediates between that superior and the chain's subject than it allows. Every "
  "limit in a chain counts, limits set lower down cannot relax it, statements that set none change "
  "nothing, and a limit is not a reason to refuse a chain that is within it.",
  ["inputs"],
  "every chain depth and every set of limits at every level",
  "The tests call the helper that computes one step; none evaluates a chain.",
  ["entity_statement/constraints.py", "entity/function/verifier.py"],
  [("meets_restrictions", "entity_statement/constraints.py")],
  ["verdict of the trust chain verifier", "verdict of the constraints evaluation"],
  "Random chains and limits against an independent count.")

P("C08", "Discovery finds every trust chain there is, and terminates",
  "Starting from an entity, collection and verification yield exactly the trust chains that follow "
  "the authority hints, without repeating an entity, to a configured trust anchor, and whose "
  "documents are all sound. It ends, whatever the hints of a finite federation look like. An "
  "authority that is unreachable, misbehaves, answers with somebody else's statement or with an "
  "unacceptable policy costs only the chains through it, never the others.",
  ["inputs", "fault points"],
  "every finite graph of hints (loops, diamonds, several anchors, tenants on a host) and every "
  "failure of any endpoint",
  "Tests collect over three fixed, healthy federations.",
  ["entity/function/trust_chain_collector.py", "entity/function/__init__.py",
   "entity/client/entity_configuration.py", "entity/client/entity_statement.py"],
  [("collect_tree, collect_branch", "entity/function/trust_chain_collector.py"),
   ("tree2chains, verify_trust_chains, apply_policies", "entity/function/__init__.py")],
  ["the trust chains returned", "HTTP requests made"],
  "Random graphs and faults; the set of chains is compared with an enumeration of the simple paths.")

P("C06", "Resolved metadata obeys the policy of every superior in the chain",
  "The metadata a trust chain yields for an entity satisfies, for each of its entity types, every "
  "metadata policy operator that any superior in the chain set for that type (for superset_of: the "
  "values those superiors have in common), and carries what superiors set as metadata, whatever the "
  "entity itself published. Claims nobody set a policy for stay as published; policies for another "
  "entity type, the subject's own statements, and what a trust anchor says about itself have no "
  "effect. Metadata that can't be made to satisfy all of that is not used.",
  ["inputs"],
  "every combination of policies, superior metadata and entity metadata, at every chain depth",
  "Tests combine pairs of fixed policies; no test checks a resulting metadata against each superior.",
  ["entity/function/policy.py", "entity/function/policy_operator.py"],
  [("combine, gather_policies, apply_policy", "entity/function/policy.py"),
   ("the policy operators", "entity/function/policy_operator.py")],
  ["metadata of the processed trust chains"],
  "Random policies and metadata; every operator of every superior is evaluated on the outcome.")

P("C07", "Metadata policies are combined and applied exactly, and leave no trace",
  "An entity whose metadata can satisfy compatible policies is never refused, and its resulting "
  "metadata is exactly what the combined operators yield: values set, defaults filled in, additions "
  "united with what is there, lists cut down to what is allowed. Superiors that contradict each other "
  "(different values or defaults, nothing left in common, essential withdrawn, one claim set both "
  "ways) are an error. Applying policies changes neither statements nor policies, gives the same "
  "result when repeated, and doesn't depend on other chains that were processed.",
  ["inputs", "histories"],
  "every combination of policies, superior metadata and entity metadata, in any order of processing",
  "Tests combine pairs of fixed policies and apply them once.",
  ["entity/function/policy.py", "entity/function/policy_operator.py", "entity/function/__init__.py"],
  [("combine, combine_claim_policy, gather_policies", "entity/function/policy.py"),
   ("the policy operators", "entity/function/policy_operator.py")],
  ["metadata of the processed trust chains", "verified statements", "combine()"],
  "Random policies against an independent evaluation; where the specification lets an implementation "
  "refuse a policy that contradicts itself, refusal is accepted.")

P("C09", "What was collected or requested before neither costs nor adds a trust chain",
  "As long as entities' keys and hints stay the same, collecting an entity's trust chains gives the "
  "same set of chains and the same metadata as a federation entity would find that has just been "
  "started, whatever was collected, looked up or requested before, and however much time has passed "
  "since. A failure to deliver a document, or the delivery of one by or about somebody else, expired "
  "or unsigned, costs nothing once it is over, and meanwhile costs only chains that need that "
  "document. Nothing an entity answers can take the place of another entity's configuration.",
  ["inputs", "histories", "schedules", "fault points"],
  "every federation graph and every sequence of collections, requests, passages of time and outages",
  "Tests make one or two collections at one instant from documents that are always there.",
  ["entity/function/trust_chain_collector.py", "entity/function/__init__.py",
   "entity/client/entity_configuration.py", "entity/client/entity_statement.py",
   "entity_statement/cache.py"],
  [("caches of configurations and statements", "entity/function/trust_chain_collector.py"),
   ("post_parse_response", "entity/client/entity_configuration.py")],
  ["the trust chains returned", "HTTP requests made"],
  "Histories on random graphs; every collection is compared with the hint paths and, at the end, "
  "with a fresh entity.")

P("C13", "The record of issued trust marks is complete, exact and outlives interruptions",
  "A trust mark issuer's record, file based or in memory, says that a trust mark has been issued to an "
  "entity (optionally: on a given date) if, and only if, such a trust mark was added and at least one "
  "such has not expired; its lists name exactly the entities for which that holds, each once. That "
  "stays so across restarts, and after export and import into another record. An addition to the "
  "file that is cut short costs at most that one addition, and additions made by several processes "
  "at the same time are all kept.",
  ["inputs", "histories", "schedules", "crash points"],
  "every sequence of additions, time, restarts and exports, every byte at which a write can be cut, "
  "every interleaving of writers and readers",
  "Tests add a few records and read them back at once, in one process.",
  ["trust_mark_entity/__init__.py"],
  [("FileDB", "trust_mark_entity/__init__.py"), ("SimpleDB", "trust_mark_entity/__init__.py")],
  ["find, list, dump, load of the records", "the files"],
  "Sampled histories against a model; cuts by file size limit at sampled byte positions; real "
  "processes, so interleavings are those the scheduler gives.")

P("C14", "A trust mark issuer issues what is configured and tells the truth about it",
  "A trust mark that is issued is signed by the issuer, names it, the requested identifier and "
  "subject, and the time of issue, carries the configured claims and expires when the configured "
  "lifetime says. Requests for unknown identifiers, incomplete requests, and, where client "
  "authentication is demanded, unauthenticated ones, yield no trust mark and leave no record. Status "
  "requests, by trust mark or by subject and identifier (with or without date), are answered active "
  "if, and only if, that trust mark was issued by this issuer and has not expired, and lists name "
  "exactly the entities that have one, also after a restart. A mark it is asked to unpack for an entity "
  "has to be about that entity. An entity's self-signed trust marks are likewise as configured, and are "
  "in its entity configuration.",
  ["inputs", "histories"],
  "every sequence of requests, forged or foreign marks, passages of time and restarts",
  "Tests issue one mark and ask for its status in the same second; no test asks about a mark that was "
  "not issued, has expired, or is somebody else's.",
  ["trust_mark_entity/entity.py", "trust_mark_entity/server/trust_mark.py",
   "trust_mark_entity/server/trust_mark_status.py", "trust_mark_entity/server/trust_mark_list.py",
   "entity/client/trust_mark_status.py", "entity/client/trust_mark_list.py"],
  [("create_trust_mark, find, list", "trust_mark_entity/entity.py"),
   ("status answers", "trust_mark_entity/server/trust_mark_status.py")],
  ["issued trust marks", "replies of the three trust mark endpoints"],
  "Sampled histories against a model of what was issued.")

P("C15", "A trust mark is accepted only if the issuer and the trust anchor stand behind it",
  "A trust mark is accepted, for a given trust anchor, if, and only if, it is complete, about the "
  "entity asked for, has not expired, and is signed with a key its issuer has now according to a "
  "verified trust chain to that trust anchor. If the trust anchor lists issuers for that identifier, "
  "the issuer is among them. If it names another owner for it, or the mark carries a delegation, the "
  "delegation is unexpired and signed by that owner, for that issuer and that identifier. When the "
  "issuer is asked too, the mark is accepted only if it answers that it is active.",
  ["inputs", "histories"],
  "every trust mark, delegation, set of demands of the trust anchor, and history of key changes",
  "Tests verify two genuine marks; no test presents one that should be refused.",
  ["entity/function/trust_mark_verifier.py", "entity/__init__.py"],
  [("TrustMarkVerifier", "entity/function/trust_mark_verifier.py"),
   ("verify_trust_mark", "entity/__init__.py")],
  ["return value of the trust mark verifier and of verify_trust_mark"],
  "Hostile and genuine marks against an independent verdict. Marks issued by a trust anchor itself "
  "are not covered.")

P("C10", "Entity configurations and fetched statements say exactly what is registered",
  "An entity's configuration, fetched from its endpoint or its own site, is signed with its own key "
  "and states its identity, all its public keys, its metadata for every role it has, its authority "
  "hints and its trust marks as they are configured now. A statement it issues about a subordinate is "
  "issued in its own name, only about registered subordinates, and carries exactly what is "
  "registered: the subordinate's keys, constraints and the like, and the metadata and policy set for "
  "that subordinate, or else for its entity types. Nothing carries private keys, and answering "
  "changes nothing that is registered.",
  ["inputs", "histories"],
  "every sequence of registrations, policy changes, passages of time and questions, for every kind of "
  "entity and store",
  "Tests fetch one statement about one subordinate; none fetches twice with a change in between, and "
  "none asks in somebody else's name.",
  ["entity/server/fetch.py", "entity/server/entity_configuration.py", "entity/context.py",
   "entity_statement/create.py", "combo.py"],
  [("Fetch.process_request", "entity/server/fetch.py"),
   ("create_entity_statement", "entity/context.py")],
  ["replies of the fetch and entity configuration endpoints", "the subordinate and policy stores"],
  "Sampled histories against a model of what is registered; both in-memory and file-backed stores.")

P("C11", "A listing names exactly the subordinates that match all the criteria",
  "Asked without criteria, an entity lists all its registered subordinates, each once, and nobody "
  "else. Asked for an entity type, for intermediates, for trust marked ones or for those with a given "
  "trust mark, it lists exactly those that meet all the criteria given, by their registration and, as "
  "to trust marks, by their current entity configuration signed with a registered key. A subordinate "
  "that cannot be reached or answers rubbish is the only one that affects, and the entity asking "
  "over the network gets that same list.",
  ["inputs", "histories"],
  "every set of registered subordinates, every combination of criteria, every failure of a subordinate",
  "Tests list a fixed set with one criterion and all subordinates well-behaved.",
  ["entity/server/list.py", "entity/client/list.py"],
  [("process_request, filter", "entity/server/list.py"),
   ("get_request_parameters", "entity/client/list.py")],
  ["replies of the list endpoint", "what the client returns"],
  "Sampled registrations, criteria and faults against a model.")

P("C12", "A resolver's answer rests on a verified trust chain to the anchor asked for",
  "A resolver answers only if there is a valid trust chain from the subject to the trust anchor asked "
  "for and it trusts that trust anchor itself, and then it does answer. The answer is signed by the "
  "resolver, names the subject, carries that trust chain, starting with the subject's configuration, "
  "and the subject's metadata as the policies in that chain make it, for all its entity types or just "
  "the one asked for. It is not valid longer than any statement in the chain.",
  ["inputs", "histories"],
  "every federation, subject, trust anchor and entity type, also as statements expire and change",
  "Tests resolve one leaf in one federation in which every statement is fresh.",
  ["entity/server/resolve.py", "entity/function/__init__.py"],
  [("Resolve.process_request", "entity/server/resolve.py")],
  ["replies of the resolve endpoint"],
  "Sampled federations with faults; the chain in the answer is verified independently and the "
  "metadata recomputed from it.")

P("C16", "Automatic registration registers who asks, as its trust chain says",
  "A client that isn't known to an OpenID provider or OAuth2 authorization server is registered by its "
  "authorization request (or pushed authorization request) exactly when it has a valid trust chain to "
  "one of the server's trust anchors, fetched or provided in the request, that is about that client "
  "and allows its metadata; a client in good standing is not refused. What is registered, redirect "
  "URIs and keys included, is the client's metadata as the policies of such a trust chain make it, and "
  "replaces what was registered before. Only the registered keys authenticate the client and only a "
  "registered redirect URI is used. No request alters what is registered for anybody else, and a "
  "refused registration leaves things as they were, except that a client for which the server itself "
  "finds nothing valid any more is no longer registered. A pushed request is stored as it was and can "
  "be used once.",
  ["inputs", "histories"],
  "every federation, request, provided chain and history of requests, changes and passing time",
  "Tests let one genuine client register once in a federation where all is well.",
  ["appserver/oidc/authorization.py", "appserver/oauth2/authorization.py",
   "appserver/oauth2/pushed_authorization.py", "appserver/__init__.py", "entity/function/__init__.py"],
  [("do_automatic_registration, client_authentication", "appserver/oidc/authorization.py"),
   ("register_client", "appserver/__init__.py"),
   ("verify_provided_trust_chain", "entity/function/__init__.py")],
  ["result of parse_request", "the server's client database and key store"],
  "Sampled histories; what may be registered is recomputed from every genuine statement in "
  "circulation. Unsigned requests are accepted by the code and nothing is claimed about them.")

P("C17", "An explicit registration is the client's own and follows the policies",
  "An explicit registration request is accepted exactly if it is an unexpired configuration of the "
  "client, issued by the client and signed with a key that its superiors vouch for in a valid trust "
  "chain to one of the server's trust anchors, and its metadata passes the policies of that chain. The "
  "metadata of the request, as these policies make it, is what is registered, keys included. The "
  "response is signed by the server, addressed to the client and about it, names the trust anchor "
  "used, and states what was registered, the client ID (at OpenID providers always the client's "
  "entity ID) and a client secret the server knows included. Of several usable trust chains the one "
  "whose trust anchor comes first in the server's order of priority is used, and one that is refused "
  "doesn't prevent the use of another. What isn't allowed for the type of client, like a redirect URI "
  "without https or, for a native client, at another host than localhost, is refused, and what the "
  "server has no support for is neither registered nor stated. A refused request changes nothing and "
  "nobody else's registration is altered.",
  ["inputs", "histories"],
  "every request, genuine or forged, in every federation and after every history",
  "Tests make one genuine registration.",
  ["appserver/oidc/registration.py", "appserver/oauth2/registration.py", "appserver/__init__.py"],
  [("Registration.process_request", "appserver/oidc/registration.py"),
   ("Registration.process_request", "appserver/oauth2/registration.py")],
  ["replies of the registration endpoint", "the server's client database and key store"],
  "Sampled histories of hostile and genuine requests against an independent verdict.")

P("C18", "A client only accepts a registration its trust anchor stands behind",
  "A client registering explicitly sends its own signed entity configuration. It accepts the response "
  "only if that is unexpired, about and for the client, names a trust anchor the client trusts, and "
  "is signed by the server with keys that a valid trust chain to that very trust anchor yields, and "
  "if the metadata in it passes the policies set for the client beneath that trust anchor. The "
  "client then uses the metadata as the policies make it. A response that is refused leaves the "
  "client's registration as it was, and a genuine one is accepted.",
  ["inputs", "histories"],
  "every response, genuine or forged, in every federation and after every history",
  "Tests accept one genuine response.",
  ["appclient/oidc/registration.py", "appclient/oauth2/registration.py"],
  [("parse_federation_registration_response", "appclient/oidc/registration.py"),
   ("parse_federation_registration_response", "appclient/oauth2/registration.py")],
  ["result of do_request", "the client's context", "the request received"],
  "Sampled responses against an independent verdict. A client with several trust chains to the same "
  "trust anchor refuses every response; that is left out.")

P("C19", "Among several trust chains the right, current one is used and found again",
  "Asking for an entity's trust chains gives all valid ones, none expired, and repeats the question to "
  "the network only when the ones it has have expired. When one of several chains has to be picked, "
  "from a list or from what was saved, it leads to the first trust anchor on the configured priority "
  "list that has a chain. Saved chains are found by entity and trust anchor, the shortest per trust "
  "anchor. Verified metadata, endpoints, listings and the provider information of a stand-alone client "
  "come from a valid chain, policies applied (for a trust anchor: from its own, current, properly "
  "signed configuration), or are not given at all; a provider describes only itself. An exported chain "
  "is accepted as the same chain by another entity.",
  ["inputs", "histories"],
  "every federation, priority list, order of operations and lapse of time",
  "Tests have one chain, or don't set priorities at all.",
  ["entity/__init__.py", "__init__.py", "entity_statement/statement.py",
   "entity/function/trust_anchor.py", "appclient/stand_alone_client_entity.py"],
  [("pick_trust_chain", "entity/__init__.py"), ("get_trust_chains", "entity/__init__.py"),
   ("pick_from_stored_trust_chains", "entity/__init__.py"),
   ("save_trust_chains", "__init__.py"), ("chains2dict", "entity_statement/statement.py"),
   ("get_verified_endpoint", "entity/function/trust_anchor.py"),
   ("do_provider_info", "appclient/stand_alone_client_entity.py")],
  ["returned chains, metadata, endpoints", "requests sent", "key jar and provider information"],
  "Sampled federations and histories; every superior marks the metadata, so the oracle sees which path "
  "an answer came from.")

P("C20", "Entities in one process don't affect each other",
  "What is done to or by one federation entity - adding trust anchors or keys, registering "
  "subordinates and policies, issuing or adding trust marks, collecting trust chains, answering "
  "questions, building another entity with arguments of its own - changes nothing about any other "
  "entity in the process, not even about one that was built from the same configuration objects. "
  "It doesn't change these objects or the package's defaults either: an entity built later is the "
  "same as if it had been built first. Looking at an entity doesn't change it.",
  ["inputs", "histories"],
  "every set of entities, configuration objects they share, and sequence of operations",
  "Tests build their entities anew, look at one at a time, and some only pass due to such leaks.",
  ["build_entity.py", "utils.py", "defaults.py", "entity/__init__.py", "entity/context.py",
   "entity/function/trust_chain_collector.py", "trust_mark_entity/entity.py"],
  [("FederationEntityBuilder", "build_entity.py"), ("make_federation_entity", "utils.py"),
   ("make_federation_combo", "utils.py"),
   ("TrustChainCollector.__init__", "entity/function/trust_chain_collector.py")],
  ["statements issued, anchors, keys, endpoints, stores, caches of every entity",
   "the configuration objects"],
  "Sampled histories; the state of all entities is compared before and after each step. Trust mark "
  "specifications with a lifetime are a known finding.")

P("C21", "An entity is what its configuration says",
  "An entity built from a configuration has exactly the services, endpoints and functions named "
  "there, in whatever form they are given (by name, as a specification, an empty list for none, or "
  "not at all for the default ones), each with the arguments given for it. Its identifier and "
  "endpoint URLs, trust anchors and their keys, authority hints, trust marks, subordinates, policies "
  "and preferences are those configured, and its entity configuration states them. What is given as "
  "a file, a store or a function is followed as it changes, also if it was empty in the beginning. "
  "References to files in a configuration are replaced by what is in the files, at any depth, and "
  "nothing else is touched.",
  ["inputs"],
  "every configuration",
  "Tests build a handful of entities from lists of names and rarely look at the result.",
  ["utils.py", "build_entity.py", "defaults.py", "entity/context.py", "entity/__init__.py"],
  [("build_entity_config", "utils.py"), ("make_federation_entity", "utils.py"),
   ("load_values_from_file", "utils.py"), ("FederationEntityBuilder", "build_entity.py"),
   ("FederationContext", "entity/context.py")],
  ["the entity built", "its entity configuration"],
  "Sampled configurations against what was drawn.")

P("C22", "Requests of a federation client ask what is meant; only real answers count",
  "Every request made by a service of the federation client goes to the endpoint given, or to the one "
  "the entity asked publishes in its federation metadata, keeping a query that is part of that "
  "endpoint's URL, and carries exactly the arguments of the question, correctly encoded. Of the answers "
  "that are statements (entity configurations, entity statements, resolve responses, trust marks), only "
  "those are taken that are signed with keys known for the issuer in question, are not expired and are "
  "about what was asked; everything else, including error messages, garbage and silence, ends in an "
  "error and changes no key and no state, so that asking again can succeed.",
  ["inputs", "histories"],
  "every service, argument, endpoint and answer",
  "Tests use mocked happy answers and check only some of the URLs.",
  ["entity/service.py", "entity/client/entity_configuration.py", "entity/client/entity_statement.py",
   "entity/client/list.py", "entity/client/resolve.py", "entity/client/trust_mark.py",
   "entity/client/trust_mark_status.py", "entity/client/__init__.py"],
  [("FederationService.verify_answer", "entity/service.py"),
   ("EntityConfiguration", "entity/client/entity_configuration.py"),
   ("EntityStatement", "entity/client/entity_statement.py"), ("Resolve", "entity/client/resolve.py"),
   ("TrustMark", "entity/client/trust_mark.py")],
  ["the request as sent", "what is handed out", "the key jar"],
  "Sampled requests and answers; signature checks by an independent oracle.")

P("C23", "Walking down a federation finds the verifiable entities and nobody else",
  "Looking for entities of a type below some point of a federation (trawl) follows what verifiable "
  "intermediates list, ends whatever loops there are in the listings, and finds all that is listed "
  "there and no one else; entities without a valid trust chain are not asked and not believed. The who "
  "endpoint names exactly those entities found below the trust anchor asked about, itself or another one "
  "it trusts, whose verified metadata have the type and credential type asked for and, if asked for, who "
  "have a valid, unrevoked trust mark of the kind asked for that is about themselves. An entity that is "
  "unreachable or answers badly costs only what lies below it.",
  ["inputs", "faults"],
  "every federation graph, listing, trust mark and failure",
  "There is no test of either.",
  ["entity/__init__.py", "entity/server/who.py", "entity/client/list.py",
   "entity/function/trust_mark_verifier.py"],
  [("FederationEntity.trawl", "entity/__init__.py"), ("Who", "entity/server/who.py"),
   ("FederationEntity.verify_trust_mark", "entity/__init__.py")],
  ["the answers of trawl and who", "the requests sent"],
  "Sampled graphs and faults; the answer expected is computed from the model.")
P("C24", "Logging in through a federation uses only what the federation vouches for",
  "A relying party that logs users in through a federation sends users and requests only to a provider "
  "with a valid trust chain, and uses exactly its verified metadata (endpoints, keys). It doesn't make "
  "authorization requests unless it is registered or can authenticate the request: then that is a request "
  "object signed with a key it publishes, with its client ID as issuer, that expires and carries all the "
  "arguments, and that the federation's servers accept. States and nonces are never reused. A login "
  "succeeds, for the user it is about, if everything in it was genuine, however logins are interleaved; "
  "it fails if the response, the ID token or the user info isn't genuine, belongs to another login or "
  "comes from another provider than the one the user was sent to. "
  "A login lasts no longer than its ID token, and its access token is not used past its expiry.",
  ["inputs", "histories", "faults"],
  "every federation, configuration of client and provider, and interleaving of logins, genuine or attacked",
  "No test uses the client that logs in by itself; the request tests make one request.",
  ["appclient/__init__.py", "appclient/stand_alone_client_entity.py",
   "appclient/oidc/authorization.py", "appclient/oauth2/authorization.py"],
  [("StandAloneClientEntity", "appclient/stand_alone_client_entity.py"),
   ("Authorization._automatic_registration", "appclient/oidc/authorization.py"),
   ("Authorization.create_request", "appclient/oauth2/authorization.py")],
  ["authorization URLs", "requests to the provider", "results of logins", "sessions"],
  "Sampled histories against a model provider; the metadata expected is recomputed independently.")

P("C25", "Extensions an issuer says are critical are understood, or it is refused",
  "If an entity statement says that a claim it contains, or an operator in a metadata policy it contains, is "
  "critical, and that extension isn't among those the verifier knows, then the statement is invalid, "
  "and so is every trust chain it is part of, whoever in the chain issued it and whatever the value is. "
  "Extensions that are not said to be critical in the statement they are in, and those that are known, "
  "are no reason to refuse: they are ignored and leave the outcome as it was.",
  ["inputs"],
  "every statement, set of extensions, set of known extensions, and position in a chain",
  "Tests verify three single messages; none verifies a chain with extensions.",
  ["message.py", "entity/function/verifier.py", "entity/function/policy.py"],
  [("EntityStatement.verify, Policy.verify", "message.py"),
   ("verify_critical", "entity/function/verifier.py")],
  ["verdicts of message verification and of the chain verifier, resulting metadata"],
  "Sampled statements and chains against a verdict computed from the data. No verdict on names listed as "
  "critical that aren't there or are standard claims.")

P("C26", "Statements published from files say what the files say, signed by the issuer",
  "An entity configuration or statement that is made from files is about the subject asked for, in the "
  "issuer's name, signed with the issuer's key, carries exactly the subject's public keys, the metadata, "
  "policy, constraints and authority hints in the issuer's files about that subject, as they are now, and "
  "lasts as long as asked; arguments given take precedence. There is no statement about subjects there are "
  "no files about. A federation published that way is evaluated as any other.",
  ["inputs", "histories"],
  "every set of files, sequence of changes to them and of questions",
  "Tests make two statements out of one fixed directory.",
  ["fetch_entity_statement/__init__.py", "fetch_entity_statement/fs2.py", "entity_statement/create.py"],
  [("FSFetchEntityStatement", "fetch_entity_statement/fs2.py"),
   ("FSPublisher", "fetch_entity_statement/fs2.py"),
   ("create_entity_statement", "entity_statement/create.py")],
  ["the statements"],
  "Sampled directories and histories; signatures and contents checked independently.")
