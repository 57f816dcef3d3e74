"""Add the repaired defects to known_findings.json (they suppress nothing)."""
import collections
import json
import os
import subprocess

PATH = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
BASE = 'da8a8fc'

# subject of the commit: property
PROPERTY = {
    'serialize Python properties with upper-case names': 'C09',
    'quote regular expressions and escape braces': 'C06',
    'keep fractional bounds of floats': 'C01',
    'keep the prefix of the identifier in irregular plurals': 'C01',
    'check the names of composites against': 'C02',
    'refuse the type names reserved in Go': 'C04',
    'match names and indentions': 'C02',
    'translate identifiers with consecutive underscores': 'C03',
    'refuse the object graph as a type': 'C02',
    'report missing and invalid types of nested': 'C02',
    'refuse bounds of floats which are not finite': 'C03',
    'refuse empty formats of date-times': 'C02',
    'report all the schema files which': 'C03',
    'report schema files with lone surrogates': 'C03',
    'escape control characters in Go and C++': 'C11',
    'escape percent signs and special characters': 'C13',
    'convert weekdays and line breaks': 'C21',
    'refuse date/time formats which Go would': 'C21',
    'refuse async and await': 'C04',
    'refuse attributes which conflict': 'C04',
    'refuse composites and modules which conflict': 'C04',
    'refuse Error, NewErrors and keywords': 'C04',
    'use the fields for properties with upper-case names in C++': 'C15',
    'define embedded structures before': 'C15',
    'refuse recursive embeddable structures': 'C04',
    'parse optional dates and date-times': 'C15',
    'escape line separators': 'C11',
    'do not splice the lines after C++ comments': 'C22',
    'compile generated Go code of empty graphs': 'C11',
    'read and write the formats with %e, %l and %P in Python': 'C21',
    'refuse Python formats with repeated': 'C21',
    'read the C++ dates with %e': 'C21',
    'refuse the directives %l and %P in C++': 'C21',
    'refuse properties and registries with the same JSON': 'C02',
    'refuse bounds beyond 64-bit': 'C04',
    'compare with the lowest 64-bit integer': 'C17',
    'refuse C++ identifiers which are keywords': 'C04',
    'escape characters not allowed in comments': 'C22',
    'refuse null characters which would cut': 'C04',
    'Refuse conflicting namespaces of ID patterns': 'C15',
    'Read and write files as UTF-8': 'C05',
    'Read the schema as UTF-8 for the message': 'C03',
    'Name Go in the message': 'C25',
    'Import datetime for the types of collections': 'C26',
    'Refuse registries which hide the object graph': 'C18',
    'Refuse fields which hide the types of other fields': 'C04',
    'Refuse registries with equal variables in Go': 'C04',
}


def main():
    """Rewrite the fixed entries."""
    with open(PATH, 'rt', encoding='utf-8') as fid:
        data = json.load(fid, object_pairs_hook=collections.OrderedDict)
    entries = [e for e in data['findings'] if e['status'] != 'fixed']
    log = subprocess.run(
        ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'],
        check=True, capture_output=True, text=True).stdout
    for line in log.splitlines():
        commit, subject = line.split(' ', 1)
        if not subject.startswith('fix: '):
            continue
        subject = subject[5:]
        prop = next((p for s, p in PROPERTY.items() if subject.startswith(s)), None)
        assert prop is not None, subject
        entries.append(collections.OrderedDict(
            property=prop, status='fixed', id=commit,
            what='fixed: property={} {} {}'.format(prop, commit, subject)))
    data['findings'] = entries
    with open(PATH, 'wt', encoding='utf-8') as fid:
        json.dump(data, fid, indent=1)
        fid.write('\n')


if __name__ == '__main__':
    main()
