//! property: C36
//! needs: an edit after which no token of some kind is left
//! breaks: the last colours of a kind of token stay behind when no token of that kind is left
//! file: code/common.ts
//! old
//! |    let byTag = {}
//! |    for (let tag in decorations) {
//! |        byTag[tag] = []
//! |    }
//! |
//! |    for (let [_range, tag] of highlihgs) {
//! |        if (!byTag[tag]) {
//! |            log(`unknown tag ${tag}`)
//! |            continue
//! |        }
//! |        let range = toVsRange(editor.document, _range)
//! |        byTag[tag].push(range)
//! new
//! |    let byTag = {}
//! |    for (let [_range, tag] of highlihgs) {
//! |        if (!decorations[tag]) {
//! |            log(`unknown tag ${tag}`)
//! |            continue
//! |        }
//! |        let range = toVsRange(editor.document, _range)
//! |        byTag[tag] = [...(byTag[tag] || []), range]
