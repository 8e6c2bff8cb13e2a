"""Produces rtbot/jsonschema.hpp the way the build does: harness/ts/gen.js runs tools/generator (target cpp) over the documentation of the operators. Should
that fail (a package that is not installed), the same is done here: the schemas put into tools/generator/templates/jsonschema.hbs."""
import glob, json, os, re, subprocess, sys


def load_yaml(text):
    try:
        import yaml
        return yaml.safe_load(text)
    except ImportError:
        r = subprocess.run(['python3-vt', '-c', 'import yaml,json,sys; print(json.dumps(yaml.safe_load(sys.stdin.read()), default=str))'], input=text, capture_output=True, text=True, check=True)
        return json.loads(r.stdout)


def schema(repo):
    ops = []
    for lib in ('std', 'core'):
        for f in sorted(glob.glob(f'{repo}/libs/{lib}/include/**/*.md', recursive=True)):
            t = open(f).read()
            if '---' not in t: continue
            s = load_yaml(t.split('---')[1])['jsonschema']
            s['properties']['type'] = {'enum': [os.path.basename(f).replace('.md', '')]}
            s['required'] = ['type'] + list(s['required'])
            ops.append(s)
    t = open(f'{repo}/tools/generator/templates/jsonschema.hbs').read()
    t = re.sub(r'\{\{#each schemas\}\}.*?\{\{/each\}\}', lambda m: ','.join(json.dumps(s, default=str) for s in ops), t, flags=re.S)
    return json.loads(t)


def write(repo, out):
    os.makedirs(f'{out}/rtbot', exist_ok=True)
    try:
        subprocess.run(['node', f'{os.path.dirname(os.path.abspath(__file__))}/harness/ts/gen.js', repo, 'cpp', f'{out}/rtbot'], capture_output=True, timeout=120)
        if os.path.getsize(f'{out}/rtbot/jsonschema.hpp') > 100: return
    except (OSError, subprocess.SubprocessError): pass
    with open(f'{out}/rtbot/jsonschema.hpp', 'w') as f:
        f.write('#pragma once\n#include <nlohmann/json.hpp>\nusing nlohmann::json;\nstatic json rtbot_schema = json::parse(R"###(' + json.dumps(schema(repo)) + ')###");\n')


if __name__ == '__main__': print(json.dumps(schema(sys.argv[1] if len(sys.argv) > 1 else '/repo'), indent=1))
