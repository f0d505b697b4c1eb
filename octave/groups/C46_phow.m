function C46_phow ()
  H = vt_int(20,40) ; W = vt_int(20,40) ; K = vt_pick(1,3) ;
  im = single(rand(H,W,K)) ;
  if rand < .6, for k = 1:K, im(:,:,k) = vl_imsmooth(im(:,:,k), 1.5) ; end, end
  sizes = vt_pick([4 6], [2 4], 4, [3 5], [4 3], [6 2 4]) ;
  step = vt_int(1,5) ; color = vt_pick('gray','gray','rgb','opponent','hsv') ;
  magnif = vt_pick(6, 3) ; thr = vt_pick(.005, .02, 0) ; win = vt_pick(1.5, 1) ; fast = rand < .7 ; fl = rand < .5 ;
  vt_desc('vl_phow %dx%dx%d sizes %s step %d %s magnif %d threshold %g', H, W, K, mat2str(sizes), step, color, magnif, thr) ;
  [f, d] = vl_phow(im, 'Sizes', sizes, 'Step', step, 'Color', color, 'Magnif', magnif, ...
     'ContrastThreshold', thr, 'WindowSize', win, 'Fast', fast, 'FloatDescriptors', fl) ;
  ch = im ;
  switch color
    case 'gray', if K == 3, ch = rgb2gray(im) ; end
    otherwise
      if K == 1, ch = cat(3, im, im, im) ; end
      r = ch(:,:,1) ; g = ch(:,:,2) ; b = ch(:,:,3) ;
      switch color
        case 'opponent', mu = .3*r + .59*g + .11*b ; ch = cat(3, mu, (r-g)/sqrt(2) + .01*mu, (r+g-2*b)/sqrt(6) + .01*mu) ;
        case 'hsv', ch = rgb2hsv(ch) ;
      end
  end
  opt = {'norm','step',step,'windowsize',win} ;
  if fast, opt{end+1} = 'fast' ; end
  if fl, opt{end+1} = 'floatdescriptors' ; end
  col = 0 ; nz = 0 ; cx = {} ;
  for s = sizes
    off = floor(1 + 1.5*(max(sizes) - s)) ;
    fr = {} ; de = {} ;
    for k = 1:size(ch,3)
      J = vl_imsmooth(single(ch(:,:,k)), s / magnif) ;
      [fr{k}, de{k}] = vl_dsift(J, opt{:}, 'size', s, 'bounds', [off off inf inf]) ;
    end
    switch color
      case {'gray','opponent'}, c = fr{1}(3,:) ;
      case 'rgb', c = (fr{1}(3,:) + fr{2}(3,:) + fr{3}(3,:)) / 3 ;
      case 'hsv', c = fr{3}(3,:) ;
    end
    n = size(fr{1}, 2) ; r = col + (1:n) ;
    if r(end:end) > size(f,2), vt_fail('phow.count', '%d features, at least %d expected', size(f,2), r(end)) ; return ; end
    vt_near('phow.frames', f(:,r), [fr{1}(1:3,:) ; s*ones(1,n)], 1e-4) ;
    D = cat(1, de{:}) ;
    low = c < thr ; edge = abs(c - thr) < 1e-6 ;
    D(:,low) = 0 ;
    keep = ~edge ;
    got = double(d(:,r)) ;
    e = max(abs(got(:,keep) - double(D(:,keep)))(:)) ;
    if ~isempty(e) && e > 1 + 1e-3, vt_fail('phow.descriptors', 'bin size %d: descriptors differ by %g', s, e) ; end
    if any(any(d(:, r(low & keep)))), vt_fail('phow.contrast', 'a descriptor below the contrast threshold is not null') ; end
    nz = nz + nnz(low) ; col = col + n ;
    cx{end+1} = unique(fr{1}(1,:)) ;
  end
  if col ~= size(f,2) || col ~= size(d,2), vt_fail('phow.count', '%d frames and %d descriptors, %d expected', size(f,2), size(d,2), col) ; end
  if all(mod(sizes,2) == mod(sizes(1),2))         % sizes of one parity share their centres
    o = max(sizes) ;
    first = cellfun(@(c) c(1), cx(~cellfun(@isempty, cx))) ;
    if any(abs(first - (1 + 1.5*o)) > 1e-6), vt_fail('phow.centres', 'first centres at %s, not at %g', mat2str(first), 1 + 1.5*o) ; end
  end
  vt_count('features', col) ; vt_count('low_contrast', nz) ; vt_seen(im(1:10), sizes, step, color) ;
end
