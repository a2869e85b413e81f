// Reads a JSON list of HTML pages, gives a JSON list of what they ask Dygraphs to show.
const pages = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = pages.map((page) => {
  const scripts = [...page.html.matchAll(/<script[^>]*>([\s\S]*?)<\/script>/g)].map((m) => m[1]);
  const shown = [];
  class Dygraph {
    constructor(div, data, options) { shown.push({ div, data, options }); }
  }
  Dygraph.defaultInteractionModel = { touchstart: 1 };
  const ids = [...page.html.matchAll(/<div[^>]*id="([^"]*)"/g)].map((m) => m[1]);
  const document = { getElementById: (id) => { if (!ids.includes(id)) throw new Error('no element ' + id); return id; } };
  new Function('Dygraph', 'document', scripts[scripts.length - 1])(Dygraph, document);
  if (shown.length !== 1) throw new Error('plots: ' + shown.length);
  const { data, options } = shown[0];
  const result = { rows: data.map((row) => [row[0].getTime(), ...row.slice(1)]), options: {}, marks: null, library: scripts.length > 1, ids };
  for (const k of ['labels', 'valueRange', 'customBars', 'stepPlot', 'showRangeSelector', 'colors', 'labelsUTC', 'labelsDiv', 'series', 'drawPoints', 'sigFigs']) result.options[k] = options[k];
  const idle = options.legendFormatter({ dygraph: { getOption: (k) => (k === 'showLabelsOnHighlight' ? true : 'always') }, series: options.labels.slice(1).map((label) => ({ label, labelHTML: label, isVisible: true, color: 'c', dashHTML: '' })) });
  const over = options.legendFormatter({ dygraph: { getOption: (k) => (k === 'showLabelsOnHighlight' ? true : 'always') }, x: 1, xHTML: 'WHEN', series: options.labels.slice(1).map((label) => ({ label, labelHTML: label, isVisible: true, color: 'c', yHTML: 0.25 })) });
  result.idle = idle;
  result.over = over;
  if (options.underlayCallback) {
    const asked = [], drawn = [];
    const canvas = { fillRect: (x, y, w, h) => drawn.push([x, y, w, h]) };
    options.underlayCallback(canvas, { y: 7, h: 11 }, { toDomCoords: (x) => { asked.push(x); return [x, 0]; } });
    result.marks = { asked, drawn, color: canvas.fillStyle };
  }
  return result;
});
console.log(JSON.stringify(out));
