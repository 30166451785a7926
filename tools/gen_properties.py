#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every returned trust chain is genuine",
  "Every trust chain returned by resolution starts with the entity configuration of the requested entity, ends with the entity configuration of a configured trust anchor, and each statement in between is issued by the next entity about the previous one. Every statement in it carries a valid signature under keys vouched for from above: the keys configured for the trust anchor (its published keys only if none are configured), and for everything below the keys its superior attests in the statement about it. Nothing an attacker serves (forged or swapped signatures, substituted iss/sub, keys nobody attested, other JWT types, an entity without any superior) ever yields a chain.",
  ["inputs", "configurations"],
  "all federation topologies (diamonds, cycles, several anchors, dangling hints) with any set of forged/substituted/wrong-key/wrong-type statements, and all trust anchor configurations with or without pinned keys",
  "The tests resolve a handful of honest fixed federations; the adversarial half of the quantifier (which statement is forged, where in which topology, under which pinning) is never exercised.",
  ["trustresolver.go", "entitystatement.go", "internal/jwx/jws.go", "trustanchor.go"],
  [("tree building with iss/sub checks", "trustresolver.go trustTree.resolve"), ("top-down signature verification", "trustresolver.go trustTree.verifySignatures"), ("chain extraction", "trustresolver.go trustTree.chains")],
  ["TrustResolver.ResolveToValidChains", "TrustResolver.ResolveToValidChainsWithoutVerifyingMetadata", "LocalMetadataResolver"])

p("C02", "Every valid trust chain is found",
  "Resolution returns every valid trust chain: one for each loop-free path along authority hints from the requested entity up to the first configured trust anchor on that path whose statements are all retrievable, valid, correctly signed and within the constraints. Superiors that are unreachable, misbehaving, malformed or part of cycles never hide a valid path that does not use them, and resolution always terminates.",
  ["inputs", "configurations", "fault_sequences"],
  "all federation topologies up to the generated size, all placements of faulty or hostile entities and endpoints, all sets of trust anchors",
  "Tests use fixed small topologies; whether one bad sibling removes, duplicates or hides another path depends on positions and combinations no fixed example enumerates.",
  ["trustresolver.go"],
  [("authority walk with loop prevention", "trustresolver.go trustTree.resolve"), ("pruning of unverifiable branches", "trustresolver.go trustTree.verifySignatures")],
  ["TrustResolver.ResolveToValidChains", "LocalMetadataResolver.ResolvePossible"])

p("C03", "Federation constraints are enforced on every chain",
  "A trust chain is returned only if every constraint stated by any superior in it holds: no more intermediates below that superior than its max_path_length, every entity identifier below it matches its naming constraints (exact host, or any host under a leading-dot domain; excluded wins over permitted; an empty permitted list permits nothing), and every entity type below it is in allowed_entity_types (federation_entity is always allowed). A chain that satisfies all constraints is not rejected because of them.",
  ["inputs", "configurations"],
  "all combinations of constraints at any level of any chain, entity identifiers with ports, paths, sub- and look-alike domains, and all sets of entity types including ones unknown to the library",
  "Constraint tests cover a few constraint/topology pairs; the off-by-one, suffix-matching and per-level accumulation questions are over all combinations.",
  ["trustresolver.go", "entitystatement.go", "metadata.go"],
  [("constraint check per superior", "trustresolver.go trustTree.checkConstraints"), ("host matching", "trustresolver.go matchNamingConstraint"), ("entity types", "metadata.go GuessEntityTypes")],
  ["TrustResolver.ResolveToValidChains"])

p("C04", "Nothing expired or not yet valid is ever used",
  "No trust chain or resolved metadata is returned that contains a statement (the requested entity's own configuration included) which is expired or not yet valid at that moment, no matter what was resolved or cached before, and a chain's expiration is the earliest expiration of its statements. Once a cached statement has expired, a fresh one is requested and used; statements are refreshed in the background only when within the configured grace period of expiring and after the configured share of their lifetime has elapsed.",
  ["histories", "inputs", "configurations"],
  "all histories of resolutions interleaved with the passage of time and re-issuance of statements, all lifetimes, all grace settings",
  "Tests never advance time past an expiration and never resolve twice across one; the property is about histories over time.",
  ["trustresolver.go", "trustchain.go", "unixtime/unixtime.go", "cache/cache.go"],
  [("time validity check", "entitystatement.go TimeValid"), ("cache lifetimes", "trustresolver.go entityStmtCacheSet, cacheSetTrustChains; trustchain.go cacheSetMetadata"), ("background refresh", "trustresolver.go getEntityStatementOrConfiguration")],
  ["TrustResolver.ResolveToValidChains", "TrustChain.ExpiresAt", "GetEntityConfiguration", "requests seen by the mock federation"],
  [("trustTree.expiresAt", "lifetime for cached trees and chains", "trustresolver.go"), ("entity statement cache", "statements by subject and issuer", "trustresolver.go")])

p("C05", "Caching never changes an answer",
  "While the federation does not change and nothing expires, any resolution gives the same trust chains and the same resolved metadata whether or not caches are warm, in whatever order and with whatever mix of requests came before, and with either cache backend. In particular answers never leak between requests that differ in trust anchors, pinned keys, requested entity types or starting entity, or between verified and unverified resolution steps.",
  ["histories", "configurations"],
  "all sequences of resolutions with different subjects, trust anchors, pinned keys and entity types over one federation, on the in-memory and the redis cache",
  "Every test resolves against an effectively cold cache or ignores the difference; cache-key collisions and lossy cache encodings only show in sequences.",
  ["trustresolver.go", "trustchain.go", "cache/cache.go", "cache/redis.go", "metadata_generated.go", "entitystatement.go"],
  [("cache keys", "trustresolver.go TrustResolver.hash, trustchain.go TrustChain.hash"), ("msgpack encodings", "entitystatement.go, metadata_generated.go, jwks/jwks.go")],
  ["TrustResolver.ResolveToValidChains", "LocalMetadataResolver.Resolve", "TrustChain.Metadata"])

p("C06", "Metadata policies are applied exactly as specified",
  "Resolved metadata is the leaf's metadata with the merged policy's operators applied in order value, add, default, one_of, subset_of, superset_of, essential to each named parameter, for every entity type and parameter, known to the library or not; scope strings are treated as lists where the policy gives a list. It is an error exactly when a check operator fails on the value, parameters and entity types not named by the policy come out unchanged, and applying a policy does not alter the metadata or policy objects passed in.",
  ["inputs"],
  "all well-typed metadata documents and policies over all entity types, parameters and operator combinations",
  "Vectors and tests cover four parameter names and hand-picked operator pairs; every other parameter, entity type and value type combination is untested.",
  ["metadata.go", "metadataPolicy.go", "policyoperators.go", "internal/utils/slices.go", "metadata_generated.go"],
  [("operator application", "metadataPolicy.go MetadataPolicyEntry.ApplyTo"), ("per-parameter application", "metadata.go applyPolicy"), ("presence tracking", "metadata_generated.go wasSet")],
  ["Metadata.ApplyPolicy", "TrustChain.Metadata"])

p("C07", "Merged policies never loosen a superior",
  "Merging the policies of a chain yields a policy whose outcome on any metadata satisfies every individual policy's checks (one_of, subset_of, superset_of, essential, value), and merging is either impossible (an error) or independent of grouping and of order up to the order of list elements. Policies that contradict each other never result in metadata: merging or applying them is an error. Policies given by only some of the statements are validated and kept, and the policies passed in are left unmodified.",
  ["inputs"],
  "all sequences of policies over all operators and parameters, all metadata they are applied to",
  "Tests merge fixed pairs; associativity, commutativity, monotonicity and aliasing are laws over all policy triples.",
  ["metadataPolicy.go", "policyoperators.go", "policyverifiers.go", "internal/utils/slices.go"],
  [("pairwise combination", "metadataPolicy.go combineMetadataPolicy, mergeMetadataPolicyEntries"), ("operator mergers", "policyoperators.go"), ("operator combination rules", "policyverifiers.go")],
  ["MergeMetadataPolicies", "CombineMetadataPolicy", "Metadata.ApplyPolicy"])

p("C08", "Remote content never crashes the process",
  "Whatever a remote party serves - any bytes, JSON or JWT in an entity statement, metadata, metadata policy, trust mark, delegation, resolve response, listing, collection or token response - the library either uses it or returns an error or skips it; it never panics.",
  ["inputs", "fault_sequences"],
  "all byte strings and JSON/JWT documents at every place where remote content is consumed, including wrong types, nulls, missing claims, empty lists and mixed-type lists",
  "Tests feed well-formed documents; a crash needs one unusual value in one of hundreds of positions.",
  ["trustresolver.go", "metadata.go", "metadataPolicy.go", "policyoperators.go", "policyverifiers.go", "internal/utils/slices.go", "trustmark.go", "discovery.go", "metadata_resolver.go", "authcode.go"],
  [("decoding", "entitystatement.go ParseEntityStatement and friends"), ("reflection on policy values", "internal/utils/slices.go, metadata.go applyPolicy")],
  ["LocalMetadataResolver.ResolveResponsePayload", "ParseEntityStatement", "ParseTrustMark", "ParseResolveResponse", "EntityCollector.CollectEntities", "FederationLeaf.GetAuthorizationURL", "FederationLeaf.CodeExchange"])

p("C09", "Critical and unknown policy operators are handled safely",
  "If any statement of a chain lists a policy operator in metadata_policy_crit that is not understood, the chain has no valid metadata; understood operators listed there change nothing. Operators that are not understood and not critical are ignored without disturbing any other operator, parameter or policy in the chain, and a registered custom operator takes effect in its place in the order.",
  ["inputs", "configurations"],
  "all chains with any placement of known, unknown and custom operators in policies and metadata_policy_crit lists",
  "Tests check single policies; the interaction of unknown operators with merging across several statements is not sampled.",
  ["metadataPolicy.go", "trustchain.go", "policyoperators.go"],
  [("critical operator check", "trustchain.go Metadata"), ("unknown operators in merge", "metadataPolicy.go mergeMetadataPolicyEntries, MetadataPolicyEntry.Verify")],
  ["TrustChain.Metadata", "LocalMetadataResolver.Resolve", "MergeMetadataPolicies"])

p("C10", "A JWT is accepted only with right type, signature and key",
  "An entity statement, trust mark, delegation or resolve response is parsed only if its single protected header carries exactly the JWT type for that document, and verified only if its signature over exactly that header and payload checks under one of the given keys; unsigned, truncated, bit-flipped, re-headed, wrong-key, wrong-algorithm or multi-signature variants never verify. What is signed with this library verifies with its published key set and yields the same claims, for every supported algorithm.",
  ["inputs"],
  "all payloads, key types, algorithms, key sets, and all generated mutations of signed messages",
  "Tests verify a few honest tokens with one algorithm; forgery resistance quantifies over all mutations.",
  ["internal/jwx/jws.go", "jwtsigning.go", "jwks/jwks.go", "entitystatement.go", "trustmark.go", "metadata_resolver.go"],
  [("parse and verify", "internal/jwx/jws.go Parse, VerifyWithSet, VerifyType"), ("sign", "internal/jwx/jws.go SignPayload; jwtsigning.go")],
  ["ParseEntityStatement", "EntityStatement.Verify", "ParseTrustMark", "TrustMark.VerifyExternal", "ParseResolveResponse", "GeneralJWTSigner.JWT"])

p("C11", "A trust mark verifies only if truly authorised",
  "A trust mark is accepted in a federation exactly if it is currently valid, is signed with the keys of its issuer as established through a valid chain to the trust anchor (or the anchor's own keys), its issuer is among the issuers the trust anchor allows for that type when it restricts the type, the announced type matches, and - when the trust anchor names an owner for the type - it carries a currently valid delegation for that type and issuer signed by that owner. Any single one of these failing makes verification fail.",
  ["inputs", "configurations"],
  "all trust marks, delegations, trust anchor issuer/owner tables and federation topologies of the issuer, with any subset of the conditions violated",
  "Tests check a few valid marks and single failures; the conjunction over all subsets and configurations is not sampled.",
  ["trustmark.go"],
  [("federation verification", "trustmark.go TrustMark.VerifyFederation, getTrustMarkIssuerJWKS"), ("external verification", "trustmark.go TrustMark.VerifyExternal, DelegationJWT.VerifyExternal")],
  ["TrustMarkInfo.VerifyFederation", "TrustMarkInfo.VerifyExternal", "TrustMarkInfos.VerifiedFederation", "TrustMarkInfos.VerifiedExternal", "DelegationJWT.VerifyFederation"])

p("C12", "Issued trust marks and delegations are what was specified",
  "A trust mark or delegation issued by a trust mark issuer or owner carries exactly the issuer, subject, type, reference, logo, extra claims and delegation of its specification, expires after the given custom lifetime or else the specified one (never when that is zero), is signed with the issuer's key and type, and verifies with the issuer's published keys together with the owner's for delegated ones. Unknown types are refused and issuing never changes the specification.",
  ["inputs", "histories"],
  "all specifications, subjects, lifetimes, and sequences of adding and issuing trust marks and delegations",
  "Tests issue a few marks with fixed lifetimes.",
  ["trustmark.go"],
  [("issuing", "trustmark.go IssueTrustMark, DelegationJWT")],
  ["TrustMarkIssuer.IssueTrustMark", "TrustMarkOwner.DelegationJWT"])

p("C13", "Trust marks are only attributed to their subject",
  "The trust marks reported for an entity in a resolve response or an entity collection, and those that satisfy a trust mark filter of a collection, are exactly the marks in that entity's own configuration that verify in the trust anchor's federation and whose subject is that entity; nobody else's mark is ever credited to it.",
  ["inputs", "configurations"],
  "all federations in which entities publish any mixture of own, borrowed, expired, forged and unauthorised trust marks",
  "Tests only publish honest marks.",
  ["metadata_resolver.go", "discovery.go", "trustmark.go"],
  [("resolve response trust marks", "metadata_resolver.go ResolveResponsePayload"), ("collection filter and claim", "discovery.go collect")],
  ["LocalMetadataResolver.ResolveResponsePayload", "SimpleEntityCollector.CollectEntities"])

p("C14", "Collection finds exactly the reachable matching entities",
  "Entity collection from a trust anchor returns each entity reachable through subordinate listings exactly once, restricted to those matching the requested entity types, name and trust mark types (and, for the verified collectors, having a valid trust chain and passing all filters), never the non-matching ones. It terminates on cyclic listings, tolerates failing entities and endpoints, and is free of data races and independent of scheduling.",
  ["inputs", "schedules", "configurations", "fault_sequences"],
  "all listing graphs with cycles, shared subordinates and failing entities, all request filters, all goroutine schedules and response timings",
  "Tests collect one small tree; races, cycles and early-visited filtering depend on schedule and topology.",
  ["discovery.go"],
  [("concurrent recursive walk", "discovery.go SimpleEntityCollector.collect"), ("filters", "discovery.go FilterableVerifiedChainsEntityCollector and EntityCollectionFilter*")],
  ["SimpleEntityCollector.CollectEntities", "SimpleOPCollector.CollectEntities", "VerifiedChainsEntityCollector.CollectEntities", "FilterableVerifiedChainsEntityCollector.CollectEntities"],
  [("visitedEntities", "authorities already walked", "discovery.go")])

p("C15", "Collected entities carry exactly the requested claims",
  "A collected entity reports precisely the requested claims (the default set when none are requested): its entity types, and per entity type the display name, description, keywords, logo, policy and information URIs from its own metadata in their proper fields, and on request its resolved trust chain; claims not requested are absent.",
  ["inputs"],
  "all metadata contents over all entity types and all subsets of requestable claims",
  "No test looks at the UI information of collected entities.",
  ["discovery.go", "metadata.go"],
  [("UI information", "discovery.go setUIInfoField; metadata.go IterateStringClaim, IterateStringSliceClaim, GuessDisplayNames")],
  ["SimpleEntityCollector.CollectEntities", "CollectedEntity JSON"])

p("C16", "Documents survive decoding and re-encoding losslessly",
  "Decoding any entity statement, metadata, metadata policy, trust mark, trust mark info, delegation, resolve response, collected entity or token response keeps every member - known ones in their fields, unknown ones in the extra fields at their level - and re-encoding gives back an equivalent JSON document with nothing lost, invented or moved. A document with a known member of a kind its field cannot hold, at any level, is refused. Metadata of any entity type, known or unknown, can be retrieved by name into a caller's type.",
  ["inputs"],
  "all documents with any subset of known members and any unknown members at every nesting level",
  "Tests round-trip a few fixed documents.",
  ["entitystatement.go", "metadata.go", "metadata_generated.go", "metadataPolicy.go", "trustmark.go", "trustresolver.go", "discovery.go", "authcode.go"],
  [("extra handling", "entitystatement.go unmarshalWithExtra, extraMarshalHelper"), ("lookup", "metadata.go FindEntityMetadata")],
  ["json.Marshal/json.Unmarshal of the exported types", "Metadata.FindEntityMetadata"])

p("C17", "Time, duration, key set and list encodings round-trip",
  "Timestamps and durations keep their value (to the documented seconds representation) through JSON and YAML, key sets keep their keys and parameters through JSON, YAML and cache encodings and published ones never contain private key material, and single-or-list values decode from both forms and encode back to the same values. Validity checks accept exactly the instants between issuance and expiration, unset bounds being open.",
  ["inputs"],
  "all representable timestamps, durations, key sets and lists",
  "Tests use a few sample values.",
  ["unixtime/unixtime.go", "jwks/jwks.go", "sliceorsinglevalue.go"],
  [("codecs", "unixtime/unixtime.go, jwks/jwks.go, sliceorsinglevalue.go")],
  ["unixtime.Unixtime", "unixtime.DurationInSeconds", "unixtime.VerifyTime", "jwks.JWKS", "SliceOrSingleValue"])

p("C18", "Published entity configurations are always current and valid",
  "At any time an entity's configuration is a correctly typed self-issued statement signed with its key, carrying its keys, hints, metadata, extra claims and trust mark tables, valid from now for the configured lifetime. It includes each configured trust mark that is currently available: static ones as configured, refreshed ones requested ahead once they are within their refresh grace period (and not before) and replaced before they fall below the minimum remaining lifetime, marks without expiration kept, never more than one fetch attempt per mark per minute, and a mark that cannot be obtained is left out without affecting the rest.",
  ["histories", "fault_sequences", "configurations"],
  "all entity set-ups and all histories of publishing over time with trust mark issuers that work, fail or hand out marks of any lifetime",
  "No test drives the refresher through time.",
  ["federation.go", "trustmark_refresher.go", "jwtsigning.go"],
  [("payload", "federation.go EntityConfigurationPayload"), ("refresh", "trustmark_refresher.go TrustMarkJWT, refresh")],
  ["FederationEntity.EntityConfigurationJWT", "EntityConfigurationTrustMarkConfig.TrustMarkJWT"],
  [("EntityConfigurationTrustMarkConfig", "current mark, expiration, last attempt", "trustmark_refresher.go")])

p("C19", "Requests to OPs carry exactly what the OP must see",
  "An authorization URL points to the authorization endpoint of the OP's metadata as resolved to the RP's trust anchors with their configured keys (its own query kept) and carries client id, response type, redirect URI, scope and a request object signed with the RP's key that binds audience, issuer, client id, state and all given parameters with a fresh identifier and short lifetime, and never sub or a client secret; client assertions name the RP as issuer and subject and the token endpoint as audience. A code exchange posts the code and such an assertion to the resolved token endpoint and returns the OP's tokens or its error, unknown members preserved; if the OP cannot be resolved to OP metadata an error is returned.",
  ["inputs", "configurations"],
  "all parameters, scopes, states, OP endpoints, keys and OP answers",
  "Tests build one request.",
  ["authcode.go", "federation.go"],
  [("request object", "authcode.go RequestObject"), ("assertion", "authcode.go ClientAssertion"), ("flows", "authcode.go GetAuthorizationURL, CodeExchange; federation.go ResolveOPMetadata")],
  ["RequestObjectProducer.RequestObject", "RequestObjectProducer.ClientAssertion", "FederationLeaf.GetAuthorizationURL", "FederationLeaf.CodeExchange"])

p("C20", "Sorting and filtering of chains is exact",
  "Sorting trust chains by any score returns a permutation of the input in ascending (descending) score order; each filter returns exactly the chains that satisfy its condition - trust anchor, maximum or minimal path length, valid metadata, custom checks and conjunctions - in their original order, and neither alters the chains.",
  ["inputs"],
  "all collections of chains, scoring functions and filter combinations",
  "Tests use fixed small chain sets whose order happens to work.",
  ["trustchainfilter.go", "trustchain.go"],
  [("sort", "trustchainfilter.go SortAsc, SortDesc"), ("filters", "trustchainfilter.go")],
  ["TrustChains.SortAsc", "TrustChains.SortDesc", "TrustChains.Filter", "TrustChain.PathLen"])

p("C21", "Remote resolving is faithful and falls back to local",
  "Requests to remote resolve and collection endpoints carry every field of the request under its protocol parameter name, and the answer's metadata, trust marks, trust chain, issuer, subject, times and extra members are returned as received. The smart variants use the first configured trust anchor whose endpoint answers and otherwise give the local result; a failing, silent or malformed remote is never taken as proof that an entity is invalid.",
  ["inputs", "fault_sequences", "configurations"],
  "all requests, all remote answers and failures, all arrangements of trust anchors with and without endpoints",
  "There are no tests of the remote resolvers or collectors.",
  ["metadata_resolver.go", "discovery.go", "apimodel/resolve.go", "apimodel/collection.go", "trustresolver.go"],
  [("remote resolver", "metadata_resolver.go SimpleRemoteMetadataResolver, SmartRemoteMetadataResolver"), ("remote collector", "discovery.go SimpleRemoteEntityCollector, SmartRemoteEntityCollector")],
  ["SimpleRemoteMetadataResolver", "SmartRemoteMetadataResolver", "SimpleRemoteEntityCollector", "SmartRemoteEntityCollector", "requests seen by the mock endpoint"])

p("C22", "Cache backends behave as a lifetime-bounded map",
  "For both cache backends a lookup returns an equal copy of the last value stored under exactly that key as long as its lifetime has not passed, and nothing afterwards or for any other key; statements, chains, metadata (with which parameters were present), key sets and lists come back equivalent, and values handed out or stored are not aliased. Keys built from different subsystems or different subject/issuer pairs never collide, and a value stored with a lifetime that has already passed is not served.",
  ["histories", "inputs"],
  "all sequences of stores, lookups and time steps with any keys, lifetimes and values of the cached types",
  "No test exercises the caches.",
  ["cache/cache.go", "cache/redis.go", "entitystatement.go", "metadata_generated.go", "jwks/jwks.go"],
  [("backends", "cache/cache.go cacheWrapper, cache/redis.go redisCache"), ("keys", "cache/cache.go Key, EntityStmtCacheKey")],
  ["cache.Set", "cache.Get", "cache.EntityStmtCacheKey", "cache.UseRedisCache"])

p("C23", "Failed fetches are never taken for data",
  "A response with an HTTP error status, a transport failure or a body of the wrong kind from any entity configuration, fetch, listing, trust mark, resolve or collection endpoint is treated as a failure of that fetch: its content is not used, nothing of it is cached, and the next request tries again and succeeds once the endpoint recovers.",
  ["fault_sequences", "histories"],
  "all sequences of failures and recoveries at any endpoint, all error statuses and bodies, with and without JSON error objects",
  "Tests mock only successful responses.",
  ["internal/http/http.go", "trustresolver.go", "discovery.go", "trustmark_refresher.go", "metadata_resolver.go"],
  [("response classification", "internal/http/http.go Get"), ("callers", "trustresolver.go httpGetEntityConfiguration, httpFetchEntityStatement; discovery.go httpFetchList")],
  ["GetEntityConfiguration", "FetchEntityStatement", "EntityCollector.CollectEntities", "SimpleRemoteMetadataResolver"])

p("C24", "Concurrent use gives the answers of separate use",
  "Any number of goroutines may at the same time ask the library questions (resolve chains and metadata, verify trust marks, collect entities, use the remote clients) over the same caches and may use the same chains, statements, metadata, policies, signers, trust mark issuers, key sets, collectors, resolvers and relying party: each gets the answer it would have got on its own, there is no data race, deadlock or crash, and the shared values are not modified.",
  ["schedules", "histories"],
  "all interleavings of any number of related questions, whatever the delays of the network and the state of the caches",
  "The tests never use the library from more than one goroutine.",
  ["trustresolver.go", "discovery.go", "metadata_resolver.go", "cache/cache.go", "metadata.go", "metadataPolicy.go", "trustmark.go", "authcode.go", "jwtsigning.go"],
  [("questions", "trustresolver.go TrustResolver; discovery.go; metadata_resolver.go; trustmark.go"), ("shared cache", "cache/cache.go cacheWrapper"), ("shared values", "metadata.go ApplyPolicy; metadataPolicy.go MergeMetadataPolicies; jwtsigning.go; authcode.go")],
  ["TrustResolver.ResolveToValidChains", "EntityCollector.CollectEntities", "MetadataResolver", "TrustMarkInfo verification", "Metadata.ApplyPolicy", "TrustMarkIssuer.IssueTrustMark", "FederationLeaf"])

p("C25", "A failing cache never changes an answer",
  "Lookups and stores of the cache backend may fail, be lost, time out or come back damaged: every question (chains, metadata, policy application, key sets, trust mark verification, collection, remote resolving, OP metadata) is still answered, and exactly as it would be without any cache; a partly decoded cache value is never used, and nothing panics or hangs.",
  ["fault_sequences", "histories"],
  "all sequences of questions and all failures, losses and damages of cache operations, for a custom backend and for redis",
  "No test exercises the caches, let alone failing ones.",
  ["cache/cache.go", "cache/redis.go", "trustresolver.go", "discovery.go", "entitystatement.go", "federation.go"],
  [("backends", "cache/cache.go Get, Set; cache/redis.go redisCache"), ("callers", "trustresolver.go entityStmtCacheGet; discovery.go; federation.go ResolveOPMetadata")],
  ["cache.SetCache", "cache.UseRedisCache", "TrustResolver.ResolveToValidChains", "FederationLeaf.ResolveOPMetadata", "EntityCollector.CollectEntities"])

p("C26", "The configured metadata resolver decides everywhere",
  "Every part of the library that needs resolved data (collection filters and claims, relying party OP lookup, trust mark issuer keys) asks the resolver set as DefaultMetadataResolver, with the subject, trust anchors and entity types in question, and uses its answer or failure as is. A resolver that hands its questions on to the library's own ones (wrapping, embedding, by pointer, or the smart one without remote endpoints) gives the same results as the local one, and questions never nest without end, whatever trust marks the entities publish and whoever issued them.",
  ["configurations", "inputs"],
  "all resolvers an application can configure, all federations with trust marks including self-issued and mutual ones, all answers and failures of the resolver",
  "The tests never set another resolver.",
  ["metadata_resolver.go", "discovery.go", "trustmark.go", "federation.go"],
  [("default resolver", "metadata_resolver.go DefaultMetadataResolver, defaultResolve, defaultResolvePossible"), ("users", "trustmark.go getTrustMarkIssuerJWKS; discovery.go getMetadataForCollectedEntity, collect, EntityCollectionFilterVerifiedChains; federation.go ResolveOPMetadata")],
  ["DefaultMetadataResolver", "EntityCollector.CollectEntities", "EntityCollectionFilter", "TrustMarkInfo.VerifyFederation", "FederationLeaf.ResolveOPMetadata"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
for x in P:
    n=x["statement"].count(". ")+1
    if n>3: print("sentences", x["id"], n)
