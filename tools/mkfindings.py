#!/usr/bin/env python3
"""Writes known-findings.json: genuine defects that were found, repaired or not."""
import json
open_ = [
 dict(property='C10', kind='blowup', match='whose variables refer to each other twice',
      what='a REST request with variables that refer to each other twice (var=v0=%{v1}%{v1}&var=v1=%{v2}%{v2}...) takes time and memory exponential in its length'),
]
fixed = [
 ('C01','5c4b051','requests to the REST server extended the shared list of variables of the server, so that one saw variables of another'),
 ('C03','9dfc7ff','after a failed load of the configuration waiting lookups blocked forever or used no configuration'),
 ('C19','83b1ebf','recursive lookups through interpolation and recursive scope variables exhausted the stack'),
 ('C02','34eb708','a nested lookup changed the merge strategy of the lookup that it was part of'),
 ('C12','68011fa','a failed lookup left a temporary scope in its invocation'),
 ('C02','716d3a9','a data_hash function that gave something else than a hash found nothing instead of failing'),
 ('C02','3952818','data_dig functions got no context and no options of their hierarchy entry'),
 ('C15','9aa34c2','the order of the files of a glob followed the order of the directory'),
 ('C02','57c6bbb','a location that could not be examined was taken for one that does not exist'),
 ('C16','c7696c6','concurrent first lookups in modules wrote one map at the same time and saw modules as absent'),
 ('C16','7076425','a module directory was or was not found depending on the order of enumeration'),
 ('C11','f39a490','storing a value in the session cache returned a value other than the one it replaced'),
 ('C06','57254dc','concurrent first lookups started a plugin twice and loaded functions twice'),
 ('C07','ae38aba','connections to plugins remained open after calls'),
 ('C09','587b98b','lines of plugin output were torn, mixed or lost, and a long line blocked the plugin'),
 ('C08','9b207d4','plugin processes were not reaped'),
 ('C14','1e94b71','only the first request of a server saw the variables from its standard input'),
 ('C07','c61ea0e','what followed the first value of a plugin answer was ignored'),
 ('C10','3c67720','values that are types were rendered as invalid JSON'),
 ('C10','386fc53','a deeply nested default, variable or type in a request exhausted the stack and ended the server'),
 ('C10','dc6d367','keys with line breaks were never found'),
 ('C02','606bd4c','an absolute path in HIERA_CONFIGFILE was taken to be below the current directory'), ('C23','8fc8079','values that are converted to Sensitive were shown in explanations'),
 ('C07','ffb4eb2','calls of a plugin that offers functions of different kinds with the same name failed at random'),
 ('C02','1889cc4','convert_to with arguments always failed'),
 ('C02','18637ec','a key whose first segment is quoted and has dots gave the value of another key'),
 ('C02','3b377e2','a quoted segment in the middle of a key was taken for an index'),
 ('C02','51e9b9a','what follows the first JSON value of a data file was ignored'),
 ('C25','11de13f','what follows the first document of the input was ignored by yaml2json'),
 ('C02','4aeb2cc','directories below that of a glob that cannot be listed were taken for empty ones'),
 ('C07','8ee606a','the name of a plugin function was not escaped in the URL of its calls, so that it was not found'),
]
out = open_ + [dict(property=p, kind='', match='', what=w, fixed='fixed: property=%s %s %s' % (p, c, w)) for p, c, w in fixed]
json.dump(out, open('/verif/known-findings.json', 'w'), indent=1)
open('/verif/known-findings.json', 'a').write('\n')
