function C48_curves ()
  f = vt_fig() ;
  [labels, scores] = vt_ranking() ;
  P = sum(labels(:) > 0) ; N = sum(labels(:) < 0) ;
  if ~P || ~N || ~any(scores(:) > -inf), vt_skip() ; end
  k = vt_pick('pr','pri','roc','det') ; 
  vt_desc('plot %s labels=%s scores=%s', k, mat2str(double(labels(:))'), mat2str(scores(:)',4)) ;
  switch k
    case 'pr',  vl_pr(labels, scores) ; [a,b,i] = vl_pr(labels, scores) ; t = sprintf('AP: %.2f%%', i.ap*100) ; u = sprintf('AUC: %.2f%%', i.auc*100) ;
    case 'pri', vl_pr(labels, scores, 'Interpolate', true) ; [a,b,i] = vl_pr(labels, scores, 'interpolate', true) ; t = sprintf('AP11: %.2f%%', i.ap_interp_11*100) ; u = t ;
    case 'roc'
      p = vt_pick('tntp','fptp','tptn','fpfn') ;
      vl_roc(labels, scores, 'Plot', p) ; [tp,tn,i] = vl_roc(labels, scores, 'plot', p) ;
      switch p
        case 'tntp', a = tn ; b = tp ;
        case 'fptp', a = 1-tn ; b = tp ;
        case 'tptn', a = tp ; b = tn ;
        case 'fpfn', a = 1-tn ; b = 1-tp ;
      end
      % one rate moves at a time, so the area under the steps is that of the trapezoids
      vt_near('roc.area', i.auc, abs(sum(diff(a) .* (b(1:end-1) + b(2:end))) / 2), 1e-9) ;
      t = sprintf('AUC: %.2f%%', i.auc*100) ; u = sprintf('EER: %.2f%%', i.eer*100) ;
    case 'det', vl_det(labels, scores) ; [b,a] = vl_det(labels, scores) ; t = 'DET' ; u = t ;
  end
  found = false ; ls = findobj(f, 'type', 'line') ;
  for i = 1:numel(ls)
    x = get(ls(i), 'xdata')(:)' ; y = get(ls(i), 'ydata')(:)' ;
    found = found || (numel(x) == numel(a) && max([0 abs(x - a(:)')]) < 1e-9 && max([0 abs(y - b(:)')]) < 1e-9) ;
  end
  if ~found, vt_fail('plot.curve', 'no line of the figure is the curve') ; end
  s = get(get(gca(), 'title'), 'string') ;
  if isempty(strfind(s, t)) || isempty(strfind(s, u)), vt_fail('plot.title', 'the title is %s, not %s and %s', s, t, u) ; end
  vt_count('points', numel(a)) ; vt_seen(k, double(labels), scores) ;
end
