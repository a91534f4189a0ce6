// One-off: freezes what the providers document (names, base URLs, keys, capabilities) into lib/providers.json.
import fs from 'node:fs'
const src = '/repo/packages-ext/providers/src/'
const rd = f => fs.readFileSync(src + f, 'utf8')
const creates = {}
for (const f of ['generated/create.ts', 'manual/providers/anthropic.ts', 'manual/providers/featherless.ts', 'manual/providers/openrouter.ts', 'manual/providers/together-ai.ts']) {
  for (const m of rd(f).matchAll(/export const (create\w+) = \(apiKey: string, baseURL = '([^']+)'\) => merge\(([\s\S]*?)\n\)\n/g)) {
    const caps = [...m[3].matchAll(/create(Chat|Embed|Image|Model|Speech|Transcription)Provider/g)].map(x => x[1].toLowerCase())
    if (m[1] === 'createOpenRouter') caps.push('chat')
    creates[m[1]] = { baseURL: m[2], caps: [...new Set(caps)].sort() }
  }
}
const ready = {}
for (const f of ['generated/index.ts', 'manual/index.ts']) for (const m of rd(f).matchAll(/\/\*\*((?:(?!\*\/)[\s\S])*)\*\/\nexport const (\w+) = (create\w+)\(/g)) {
  const url = /baseURL - `([^`]+)`/.exec(m[1])[1]; const env = /apiKey - `([^`]+)`/.exec(m[1])[1].split(' or ')
  if (url !== creates[m[3]].baseURL) console.error('base URL differs', m[2], url, creates[m[3]])
  ready[m[2]] = { baseURL: url, caps: creates[m[3]].caps, create: m[3], env }
}
fs.writeFileSync('/verif/lib/providers.json', JSON.stringify({ creates, ready }, null, 1) + '\n')
console.log(Object.keys(creates).length, Object.keys(ready).length)
