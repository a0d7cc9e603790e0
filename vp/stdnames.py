"""Function identifiers of the XACML 2.0 specification, as declared by it

@see: access_control-xacml-2.0-core-spec-os, 10.2.8
"""
F1 = 'urn:oasis:names:tc:xacml:1.0:function:'
F2 = 'urn:oasis:names:tc:xacml:2.0:function:'
NAMES = [F1 + n for n in """
all-of all-of-all all-of-any and any-of any-of-all any-of-any
anyURI-at-least-one-member-of anyURI-bag anyURI-bag-size anyURI-equal
anyURI-intersection anyURI-is-in anyURI-one-and-only anyURI-set-equals
anyURI-subset anyURI-union base64Binary-at-least-one-member-of base64Binary-bag
base64Binary-bag-size base64Binary-equal base64Binary-intersection
base64Binary-is-in base64Binary-one-and-only base64Binary-set-equals
base64Binary-subset base64Binary-union boolean-at-least-one-member-of
boolean-bag boolean-bag-size boolean-equal boolean-intersection boolean-is-in
boolean-one-and-only boolean-set-equals boolean-subset boolean-union
date-add-yearMonthDuration date-at-least-one-member-of date-bag date-bag-size
date-equal date-greater-than date-greater-than-or-equal date-intersection
date-is-in date-less-than date-less-than-or-equal date-one-and-only
date-set-equals date-subset date-subtract-yearMonthDuration date-union
dateTime-add-dayTimeDuration dateTime-add-yearMonthDuration
dateTime-at-least-one-member-of dateTime-bag dateTime-bag-size dateTime-equal
dateTime-greater-than dateTime-greater-than-or-equal dateTime-intersection
dateTime-is-in dateTime-less-than dateTime-less-than-or-equal
dateTime-one-and-only dateTime-set-equals dateTime-subset
dateTime-subtract-dayTimeDuration dateTime-subtract-yearMonthDuration
dateTime-union dayTimeDuration-at-least-one-member-of dayTimeDuration-bag
dayTimeDuration-bag-size dayTimeDuration-equal dayTimeDuration-intersection
dayTimeDuration-is-in dayTimeDuration-one-and-only dayTimeDuration-set-equals
dayTimeDuration-subset dayTimeDuration-union double-abs double-add
double-at-least-one-member-of double-bag double-bag-size double-divide
double-equal double-greater-than double-greater-than-or-equal
double-intersection double-is-in double-less-than double-less-than-or-equal
double-multiply double-one-and-only double-set-equals double-subset
double-subtract double-to-integer double-union floor
hexBinary-at-least-one-member-of hexBinary-bag hexBinary-bag-size
hexBinary-equal hexBinary-intersection hexBinary-is-in hexBinary-one-and-only
hexBinary-set-equals hexBinary-subset hexBinary-union integer-abs integer-add
integer-at-least-one-member-of integer-bag integer-bag-size integer-divide
integer-equal integer-greater-than integer-greater-than-or-equal
integer-intersection integer-is-in integer-less-than integer-less-than-or-equal
integer-mod integer-multiply integer-one-and-only integer-set-equals
integer-subset integer-subtract integer-to-double integer-union map n-of not or
rfc822Name-at-least-one-member-of rfc822Name-bag rfc822Name-bag-size
rfc822Name-equal rfc822Name-intersection rfc822Name-is-in rfc822Name-match
rfc822Name-one-and-only rfc822Name-set-equals rfc822Name-subset
rfc822Name-union round string-at-least-one-member-of string-bag string-bag-size
string-equal string-greater-than string-greater-than-or-equal
string-intersection string-is-in string-less-than string-less-than-or-equal
string-normalize-space string-normalize-to-lower-case string-one-and-only
string-regexp-match string-set-equals string-subset string-union
time-at-least-one-member-of time-bag time-bag-size time-equal time-greater-than
time-greater-than-or-equal time-intersection time-is-in time-less-than
time-less-than-or-equal time-one-and-only time-set-equals time-subset
time-union x500Name-at-least-one-member-of x500Name-bag x500Name-bag-size
x500Name-equal x500Name-intersection x500Name-is-in x500Name-match
x500Name-one-and-only x500Name-set-equals x500Name-subset x500Name-union
xpath-node-count xpath-node-equal xpath-node-match
yearMonthDuration-at-least-one-member-of yearMonthDuration-bag
yearMonthDuration-bag-size yearMonthDuration-equal
yearMonthDuration-intersection yearMonthDuration-is-in
yearMonthDuration-one-and-only yearMonthDuration-set-equals
yearMonthDuration-subset yearMonthDuration-union
""".split()] + [F2 + n for n in """
anyURI-regexp-match dnsName-regexp-match ipAddress-regexp-match
rfc822Name-regexp-match string-concatenate time-in-range uri-string-concatenate
x500Name-regexp-match
""".split()]
